//! Generated by tools/gen_sim.py: a simulation program for every combination of building blocks.
//! VSIM_COMBO selects the program, VSIM_DATA names a file whose lines the program writes as its data.
#![allow(unused_variables, unused_imports, dead_code)]
use moledyn::prelude::*;

fn data<W: Write>(w: &mut W) -> Result<(), Error> {
    if let Ok(p) = std::env::var("VSIM_DATA") {
        let b = fs::read(p).map_err(Error::make_error_io)?;
        w.write_all(&b).map_err(Error::make_error_io)?;
        w.flush().map_err(Error::make_error_io)?;
    }
    Ok(())
}

macro_rules! show {
    ($($v:ident),*) => { $(println!("VAR {} {:?}", stringify!($v), $v);)* };
}

fn combo_0() -> Result<(), Error> {
    simulation!("P0", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_1() -> Result<(), Error> {
    simulation!("P1", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_2() -> Result<(), Error> {
    simulation!("P2", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_3() -> Result<(), Error> {
    simulation!("P3", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_4() -> Result<(), Error> {
    simulation!("P4", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_5() -> Result<(), Error> {
    simulation!("P5", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_6() -> Result<(), Error> {
    simulation!("P6", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_7() -> Result<(), Error> {
    simulation!("P7", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_8() -> Result<(), Error> {
    simulation!("P8", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_9() -> Result<(), Error> {
    simulation!("P9", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_10() -> Result<(), Error> {
    simulation!("P10", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_11() -> Result<(), Error> {
    simulation!("P11", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_12() -> Result<(), Error> {
    simulation!("P12", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_13() -> Result<(), Error> {
    simulation!("P13", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_14() -> Result<(), Error> {
    simulation!("P14", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_15() -> Result<(), Error> {
    simulation!("P15", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_16() -> Result<(), Error> {
    simulation!("P16", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_17() -> Result<(), Error> {
    simulation!("P17", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_18() -> Result<(), Error> {
    simulation!("P18", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_19() -> Result<(), Error> {
    simulation!("P19", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_20() -> Result<(), Error> {
    simulation!("P20", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_21() -> Result<(), Error> {
    simulation!("P21", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_22() -> Result<(), Error> {
    simulation!("P22", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_23() -> Result<(), Error> {
    simulation!("P23", TimeAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_24() -> Result<(), Error> {
    simulation!("P24", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_25() -> Result<(), Error> {
    simulation!("P25", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_26() -> Result<(), Error> {
    simulation!("P26", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_27() -> Result<(), Error> {
    simulation!("P27", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_28() -> Result<(), Error> {
    simulation!("P28", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_29() -> Result<(), Error> {
    simulation!("P29", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_30() -> Result<(), Error> {
    simulation!("P30", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_31() -> Result<(), Error> {
    simulation!("P31", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_32() -> Result<(), Error> {
    simulation!("P32", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_33() -> Result<(), Error> {
    simulation!("P33", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_34() -> Result<(), Error> {
    simulation!("P34", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_35() -> Result<(), Error> {
    simulation!("P35", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_36() -> Result<(), Error> {
    simulation!("P36", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_37() -> Result<(), Error> {
    simulation!("P37", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_38() -> Result<(), Error> {
    simulation!("P38", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_39() -> Result<(), Error> {
    simulation!("P39", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_40() -> Result<(), Error> {
    simulation!("P40", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_41() -> Result<(), Error> {
    simulation!("P41", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_42() -> Result<(), Error> {
    simulation!("P42", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_43() -> Result<(), Error> {
    simulation!("P43", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_44() -> Result<(), Error> {
    simulation!("P44", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_45() -> Result<(), Error> {
    simulation!("P45", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_46() -> Result<(), Error> {
    simulation!("P46", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_47() -> Result<(), Error> {
    simulation!("P47", TimeAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_48() -> Result<(), Error> {
    simulation!("P48", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_49() -> Result<(), Error> {
    simulation!("P49", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_50() -> Result<(), Error> {
    simulation!("P50", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_51() -> Result<(), Error> {
    simulation!("P51", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_52() -> Result<(), Error> {
    simulation!("P52", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_53() -> Result<(), Error> {
    simulation!("P53", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_54() -> Result<(), Error> {
    simulation!("P54", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_55() -> Result<(), Error> {
    simulation!("P55", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_56() -> Result<(), Error> {
    simulation!("P56", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_57() -> Result<(), Error> {
    simulation!("P57", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_58() -> Result<(), Error> {
    simulation!("P58", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_59() -> Result<(), Error> {
    simulation!("P59", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_60() -> Result<(), Error> {
    simulation!("P60", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_61() -> Result<(), Error> {
    simulation!("P61", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_62() -> Result<(), Error> {
    simulation!("P62", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_63() -> Result<(), Error> {
    simulation!("P63", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_64() -> Result<(), Error> {
    simulation!("P64", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_65() -> Result<(), Error> {
    simulation!("P65", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_66() -> Result<(), Error> {
    simulation!("P66", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_67() -> Result<(), Error> {
    simulation!("P67", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_68() -> Result<(), Error> {
    simulation!("P68", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_69() -> Result<(), Error> {
    simulation!("P69", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_70() -> Result<(), Error> {
    simulation!("P70", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_71() -> Result<(), Error> {
    simulation!("P71", TimeAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_72() -> Result<(), Error> {
    simulation!("P72", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_73() -> Result<(), Error> {
    simulation!("P73", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_74() -> Result<(), Error> {
    simulation!("P74", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_75() -> Result<(), Error> {
    simulation!("P75", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_76() -> Result<(), Error> {
    simulation!("P76", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_77() -> Result<(), Error> {
    simulation!("P77", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_78() -> Result<(), Error> {
    simulation!("P78", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_79() -> Result<(), Error> {
    simulation!("P79", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_80() -> Result<(), Error> {
    simulation!("P80", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_81() -> Result<(), Error> {
    simulation!("P81", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_82() -> Result<(), Error> {
    simulation!("P82", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_83() -> Result<(), Error> {
    simulation!("P83", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_84() -> Result<(), Error> {
    simulation!("P84", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_85() -> Result<(), Error> {
    simulation!("P85", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_86() -> Result<(), Error> {
    simulation!("P86", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_87() -> Result<(), Error> {
    simulation!("P87", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_88() -> Result<(), Error> {
    simulation!("P88", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_89() -> Result<(), Error> {
    simulation!("P89", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_90() -> Result<(), Error> {
    simulation!("P90", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_91() -> Result<(), Error> {
    simulation!("P91", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_92() -> Result<(), Error> {
    simulation!("P92", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_93() -> Result<(), Error> {
    simulation!("P93", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_94() -> Result<(), Error> {
    simulation!("P94", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_95() -> Result<(), Error> {
    simulation!("P95", TimeVecAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_96() -> Result<(), Error> {
    simulation!("P96", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_97() -> Result<(), Error> {
    simulation!("P97", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_98() -> Result<(), Error> {
    simulation!("P98", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_99() -> Result<(), Error> {
    simulation!("P99", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_100() -> Result<(), Error> {
    simulation!("P100", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_101() -> Result<(), Error> {
    simulation!("P101", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_102() -> Result<(), Error> {
    simulation!("P102", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_103() -> Result<(), Error> {
    simulation!("P103", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_104() -> Result<(), Error> {
    simulation!("P104", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_105() -> Result<(), Error> {
    simulation!("P105", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_106() -> Result<(), Error> {
    simulation!("P106", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_107() -> Result<(), Error> {
    simulation!("P107", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_108() -> Result<(), Error> {
    simulation!("P108", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_109() -> Result<(), Error> {
    simulation!("P109", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_110() -> Result<(), Error> {
    simulation!("P110", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_111() -> Result<(), Error> {
    simulation!("P111", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_112() -> Result<(), Error> {
    simulation!("P112", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_113() -> Result<(), Error> {
    simulation!("P113", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_114() -> Result<(), Error> {
    simulation!("P114", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_115() -> Result<(), Error> {
    simulation!("P115", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_116() -> Result<(), Error> {
    simulation!("P116", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_117() -> Result<(), Error> {
    simulation!("P117", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_118() -> Result<(), Error> {
    simulation!("P118", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_119() -> Result<(), Error> {
    simulation!("P119", TimeVecAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_120() -> Result<(), Error> {
    simulation!("P120", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_121() -> Result<(), Error> {
    simulation!("P121", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_122() -> Result<(), Error> {
    simulation!("P122", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_123() -> Result<(), Error> {
    simulation!("P123", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_124() -> Result<(), Error> {
    simulation!("P124", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_125() -> Result<(), Error> {
    simulation!("P125", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_126() -> Result<(), Error> {
    simulation!("P126", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_127() -> Result<(), Error> {
    simulation!("P127", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_128() -> Result<(), Error> {
    simulation!("P128", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_129() -> Result<(), Error> {
    simulation!("P129", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_130() -> Result<(), Error> {
    simulation!("P130", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_131() -> Result<(), Error> {
    simulation!("P131", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_132() -> Result<(), Error> {
    simulation!("P132", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_133() -> Result<(), Error> {
    simulation!("P133", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_134() -> Result<(), Error> {
    simulation!("P134", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_135() -> Result<(), Error> {
    simulation!("P135", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_136() -> Result<(), Error> {
    simulation!("P136", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_137() -> Result<(), Error> {
    simulation!("P137", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_138() -> Result<(), Error> {
    simulation!("P138", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_139() -> Result<(), Error> {
    simulation!("P139", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_140() -> Result<(), Error> {
    simulation!("P140", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_141() -> Result<(), Error> {
    simulation!("P141", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_142() -> Result<(), Error> {
    simulation!("P142", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_143() -> Result<(), Error> {
    simulation!("P143", TimeVecAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_144() -> Result<(), Error> {
    simulation!("P144", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_145() -> Result<(), Error> {
    simulation!("P145", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_146() -> Result<(), Error> {
    simulation!("P146", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_147() -> Result<(), Error> {
    simulation!("P147", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_148() -> Result<(), Error> {
    simulation!("P148", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_149() -> Result<(), Error> {
    simulation!("P149", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_150() -> Result<(), Error> {
    simulation!("P150", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_151() -> Result<(), Error> {
    simulation!("P151", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_152() -> Result<(), Error> {
    simulation!("P152", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_153() -> Result<(), Error> {
    simulation!("P153", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_154() -> Result<(), Error> {
    simulation!("P154", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_155() -> Result<(), Error> {
    simulation!("P155", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_156() -> Result<(), Error> {
    simulation!("P156", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_157() -> Result<(), Error> {
    simulation!("P157", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_158() -> Result<(), Error> {
    simulation!("P158", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_159() -> Result<(), Error> {
    simulation!("P159", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_160() -> Result<(), Error> {
    simulation!("P160", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_161() -> Result<(), Error> {
    simulation!("P161", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_162() -> Result<(), Error> {
    simulation!("P162", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_163() -> Result<(), Error> {
    simulation!("P163", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_164() -> Result<(), Error> {
    simulation!("P164", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_165() -> Result<(), Error> {
    simulation!("P165", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_166() -> Result<(), Error> {
    simulation!("P166", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_167() -> Result<(), Error> {
    simulation!("P167", ProcessAnalysis, ContCircSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_168() -> Result<(), Error> {
    simulation!("P168", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_169() -> Result<(), Error> {
    simulation!("P169", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_170() -> Result<(), Error> {
    simulation!("P170", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_171() -> Result<(), Error> {
    simulation!("P171", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_172() -> Result<(), Error> {
    simulation!("P172", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_173() -> Result<(), Error> {
    simulation!("P173", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_174() -> Result<(), Error> {
    simulation!("P174", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_175() -> Result<(), Error> {
    simulation!("P175", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_176() -> Result<(), Error> {
    simulation!("P176", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_177() -> Result<(), Error> {
    simulation!("P177", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_178() -> Result<(), Error> {
    simulation!("P178", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_179() -> Result<(), Error> {
    simulation!("P179", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_180() -> Result<(), Error> {
    simulation!("P180", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_181() -> Result<(), Error> {
    simulation!("P181", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_182() -> Result<(), Error> {
    simulation!("P182", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_183() -> Result<(), Error> {
    simulation!("P183", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_184() -> Result<(), Error> {
    simulation!("P184", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_185() -> Result<(), Error> {
    simulation!("P185", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_186() -> Result<(), Error> {
    simulation!("P186", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_187() -> Result<(), Error> {
    simulation!("P187", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_188() -> Result<(), Error> {
    simulation!("P188", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_189() -> Result<(), Error> {
    simulation!("P189", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_190() -> Result<(), Error> {
    simulation!("P190", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_191() -> Result<(), Error> {
    simulation!("P191", ProcessAnalysis, ContCubicSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_size, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_192() -> Result<(), Error> {
    simulation!("P192", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_193() -> Result<(), Error> {
    simulation!("P193", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_194() -> Result<(), Error> {
    simulation!("P194", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_195() -> Result<(), Error> {
    simulation!("P195", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_196() -> Result<(), Error> {
    simulation!("P196", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_197() -> Result<(), Error> {
    simulation!("P197", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveIndepAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_198() -> Result<(), Error> {
    simulation!("P198", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_199() -> Result<(), Error> {
    simulation!("P199", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_200() -> Result<(), Error> {
    simulation!("P200", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_201() -> Result<(), Error> {
    simulation!("P201", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_202() -> Result<(), Error> {
    simulation!("P202", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_203() -> Result<(), Error> {
    simulation!("P203", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveMergeAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_radius, alpha, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_204() -> Result<(), Error> {
    simulation!("P204", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_205() -> Result<(), Error> {
    simulation!("P205", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_206() -> Result<(), Error> {
    simulation!("P206", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_207() -> Result<(), Error> {
    simulation!("P207", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_208() -> Result<(), Error> {
    simulation!("P208", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_209() -> Result<(), Error> {
    simulation!("P209", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveExpAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, gamma, exp_dim, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_210() -> Result<(), Error> {
    simulation!("P210", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_211() -> Result<(), Error> {
    simulation!("P211", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_212() -> Result<(), Error> {
    simulation!("P212", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ConstStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

fn combo_213() -> Result<(), Error> {
    simulation!("P213", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, VariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set));
    data(&mut writer)
}

fn combo_214() -> Result<(), Error> {
    simulation!("P214", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ParVariableSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, seed, n_thrd, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.n_thrd));
    data(&mut writer)
}

fn combo_215() -> Result<(), Error> {
    simulation!("P215", ProcessAnalysis, ContCylindricalSystem, ContBulkTarget, ContPassiveLJAgent, ExponentialStep, ProcessSimulation);
    show!(sys_radius, sys_length, dim, target_pos, target_size, mtype, itype, ptl_size, strength, num_agent, dt_min, dt_max, length, tmax, num_ensemble, period, idx_set, seed, output_dir);
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {:?}", (&simulation.num_ensemble, &simulation.seed, &simulation.output_dir, &simulation.idx_set, &simulation.period));
    data(&mut writer)
}

const COMBOS: [fn() -> Result<(), Error>; 216] = [
    combo_0,
    combo_1,
    combo_2,
    combo_3,
    combo_4,
    combo_5,
    combo_6,
    combo_7,
    combo_8,
    combo_9,
    combo_10,
    combo_11,
    combo_12,
    combo_13,
    combo_14,
    combo_15,
    combo_16,
    combo_17,
    combo_18,
    combo_19,
    combo_20,
    combo_21,
    combo_22,
    combo_23,
    combo_24,
    combo_25,
    combo_26,
    combo_27,
    combo_28,
    combo_29,
    combo_30,
    combo_31,
    combo_32,
    combo_33,
    combo_34,
    combo_35,
    combo_36,
    combo_37,
    combo_38,
    combo_39,
    combo_40,
    combo_41,
    combo_42,
    combo_43,
    combo_44,
    combo_45,
    combo_46,
    combo_47,
    combo_48,
    combo_49,
    combo_50,
    combo_51,
    combo_52,
    combo_53,
    combo_54,
    combo_55,
    combo_56,
    combo_57,
    combo_58,
    combo_59,
    combo_60,
    combo_61,
    combo_62,
    combo_63,
    combo_64,
    combo_65,
    combo_66,
    combo_67,
    combo_68,
    combo_69,
    combo_70,
    combo_71,
    combo_72,
    combo_73,
    combo_74,
    combo_75,
    combo_76,
    combo_77,
    combo_78,
    combo_79,
    combo_80,
    combo_81,
    combo_82,
    combo_83,
    combo_84,
    combo_85,
    combo_86,
    combo_87,
    combo_88,
    combo_89,
    combo_90,
    combo_91,
    combo_92,
    combo_93,
    combo_94,
    combo_95,
    combo_96,
    combo_97,
    combo_98,
    combo_99,
    combo_100,
    combo_101,
    combo_102,
    combo_103,
    combo_104,
    combo_105,
    combo_106,
    combo_107,
    combo_108,
    combo_109,
    combo_110,
    combo_111,
    combo_112,
    combo_113,
    combo_114,
    combo_115,
    combo_116,
    combo_117,
    combo_118,
    combo_119,
    combo_120,
    combo_121,
    combo_122,
    combo_123,
    combo_124,
    combo_125,
    combo_126,
    combo_127,
    combo_128,
    combo_129,
    combo_130,
    combo_131,
    combo_132,
    combo_133,
    combo_134,
    combo_135,
    combo_136,
    combo_137,
    combo_138,
    combo_139,
    combo_140,
    combo_141,
    combo_142,
    combo_143,
    combo_144,
    combo_145,
    combo_146,
    combo_147,
    combo_148,
    combo_149,
    combo_150,
    combo_151,
    combo_152,
    combo_153,
    combo_154,
    combo_155,
    combo_156,
    combo_157,
    combo_158,
    combo_159,
    combo_160,
    combo_161,
    combo_162,
    combo_163,
    combo_164,
    combo_165,
    combo_166,
    combo_167,
    combo_168,
    combo_169,
    combo_170,
    combo_171,
    combo_172,
    combo_173,
    combo_174,
    combo_175,
    combo_176,
    combo_177,
    combo_178,
    combo_179,
    combo_180,
    combo_181,
    combo_182,
    combo_183,
    combo_184,
    combo_185,
    combo_186,
    combo_187,
    combo_188,
    combo_189,
    combo_190,
    combo_191,
    combo_192,
    combo_193,
    combo_194,
    combo_195,
    combo_196,
    combo_197,
    combo_198,
    combo_199,
    combo_200,
    combo_201,
    combo_202,
    combo_203,
    combo_204,
    combo_205,
    combo_206,
    combo_207,
    combo_208,
    combo_209,
    combo_210,
    combo_211,
    combo_212,
    combo_213,
    combo_214,
    combo_215,
];

fn main() -> Result<(), Error> {
    let k: usize = std::env::var("VSIM_COMBO").ok().and_then(|x| x.parse().ok()).expect("VSIM_COMBO");
    COMBOS[k]()
}
