mod backend;
mod clock;
mod explore;
mod model;
mod suites;
mod world;
mod cli;

fn main() {
    // An odd local time zone: all times of aj are in UTC
    std::env::set_var("TZ", "VRF-05:45");
    cli::main()
}
