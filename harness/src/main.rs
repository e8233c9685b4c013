//! Property checks for moledyn: `vharness check <ID> [--tier quick|thorough] [--replay FILE]`.
//!
//! Exit 0: held on everything explored. Exit 1 with `VIOLATION property=<id> replay=<path>`: broken.
//! Exit 2: the check itself could not run (usage, watchdog).

mod gen;
mod guard;
mod pbt;
mod report;
mod stat;

mod p_agent;
mod p_analysis;
mod p_dir;
mod p_fault;
mod p_list;
mod p_phys;
mod p_pos;
mod p_random;
mod p_sim;
mod p_system;
mod p_text;
mod p_time;

use pbt::Check;

fn all_checks() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(p_system::checks());
    v.extend(p_random::checks());
    v.extend(p_agent::checks());
    v.extend(p_list::checks());
    v.extend(p_pos::checks());
    v.extend(p_time::checks());
    v.extend(p_text::checks());
    v.extend(p_analysis::checks());
    v.extend(p_dir::checks());
    v.extend(p_phys::checks());
    v.extend(p_sim::checks());
    v.extend(p_fault::checks());
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(report::run(&args, all_checks()));
}
