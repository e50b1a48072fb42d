#![allow(dead_code)]
mod checks;
mod explore;
mod net;
mod pipe;
mod planx;
mod scen;
mod shapes;
mod sql;
mod tab;
mod report;
mod rt;
mod vexec;
mod vfeed;
mod vtable;
mod vtag;

fn main() {
    report::main();
}
