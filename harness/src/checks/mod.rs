use crate::driver::AnyCheck;
mod c01;
mod cluster;
mod config;
mod contrib;
mod embed;
mod faults;
mod hist;
mod io;
mod stages;
mod whole;
pub use c01::{delays, ok_response, ok_score};

pub fn all() -> Vec<Box<dyn AnyCheck>> {
    vec![
        Box::new(c01::check()),
        Box::new(stages::c02()),
        Box::new(embed::c03()),
        Box::new(embed::c04()),
        Box::new(stages::c05()),
        Box::new(stages::c06()),
        Box::new(stages::c07()),
        Box::new(stages::c08()),
        Box::new(contrib::c09()),
        Box::new(cluster::c10()),
        Box::new(io::c11()),
        Box::new(io::c12()),
        Box::new(hist::c13()),
        Box::new(hist::c14()),
        Box::new(io::c15()),
        Box::new(config::c16()),
        Box::new(config::c17()),
        Box::new(whole::c19()),
        Box::new(whole::c20()),
        Box::new(faults::c21()),
    ]
}
