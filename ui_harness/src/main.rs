//! Monitors of the demo application: what its plot items paint and how it answers input.
mod app;
mod paint;
mod screen;

fn main() -> ! {
    cavc_monitor::rep::main(vec![paint::property(), app::property()])
}
