pub mod big;
pub mod engine;
pub mod geom;
// everything below states its oracles for the double-precision build
#[cfg(not(feature = "f32"))]
pub mod funcs;
#[cfg(not(feature = "f32"))]
pub mod graphs;
#[cfg(not(feature = "f32"))]
pub mod imu;
#[cfg(not(feature = "f32"))]
pub mod optim;
#[cfg(not(feature = "f32"))]
pub mod plans;
#[cfg(not(feature = "f32"))]
pub mod res;
#[cfg(not(feature = "f32"))]
pub mod vars;
#[cfg(not(feature = "f32"))]
pub mod world;
