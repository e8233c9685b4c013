#!/usr/bin/env python3
"""Writes /verif/sim/src/main.rs: one program per combination of building blocks."""
import os
ROOT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
AN=["TimeAnalysis","TimeVecAnalysis","ProcessAnalysis"]
SY={"ContCircSystem":["sys_size","dim"],"ContCubicSystem":["sys_size","dim"],"ContCylindricalSystem":["sys_radius","sys_length","dim"]}
AG={"ContPassiveIndepAgent":["mtype","itype","num_agent"],
"ContPassiveMergeAgent":["mtype","itype","ptl_radius","alpha","num_agent"],
"ContPassiveExpAgent":["mtype","itype","gamma","exp_dim","strength","num_agent"],
"ContPassiveLJAgent":["mtype","itype","ptl_size","strength","num_agent"]}
TI={"ConstStep":["dt","tmax"],"ExponentialStep":["dt_min","dt_max","length","tmax"]}
SI={"VariableSimulation":["num_ensemble","idx_set","seed","output_dir"],
"ParVariableSimulation":["num_ensemble","seed","n_thrd","output_dir"],
"ProcessSimulation":["num_ensemble","period","idx_set","seed","output_dir"]}
out=['''//! Generated by tools/gen_sim.py: a simulation program for every combination of building blocks.
//! VSIM_COMBO selects the program, VSIM_DATA names a file whose lines the program writes as its data.
#![allow(unused_variables, unused_imports, dead_code)]
use moledyn::prelude::*;

fn data<W: Write>(w: &mut W) -> Result<(), Error> {
    if let Ok(p) = std::env::var("VSIM_DATA") {
        let b = fs::read(p).map_err(Error::make_error_io)?;
        w.write_all(&b).map_err(Error::make_error_io)?;
        w.flush().map_err(Error::make_error_io)?;
    }
    Ok(())
}

macro_rules! show {
    ($($v:ident),*) => { $(println!("VAR {} {:?}", stringify!($v), $v);)* };
}
''']
n=0
table=[]
for a in AN:
    for s in SY:
        for g in AG:
            for t in TI:
                for m in SI:
                    v=SY[s]+["target_pos","target_size"]+AG[g]+TI[t]+SI[m]
                    sf=["num_ensemble","seed","output_dir"]+(["n_thrd"] if m=="ParVariableSimulation" else ["idx_set"])+(["period"] if m=="ProcessSimulation" else [])
                    out.append(f'''
fn combo_{n}() -> Result<(), Error> {{
    simulation!("P{n}", {a}, {s}, ContBulkTarget, {g}, {t}, {m});
    show!({", ".join(v)});
    show!(sys, target, vec_agents, timeiter);
    println!("SIM {{:?}}", ({", ".join("&simulation."+x for x in sf)}));
    data(&mut writer)
}}
''')
                    table.append(f"    combo_{n},")
                    n+=1
out.append("\nconst COMBOS: [fn() -> Result<(), Error>; %d] = [\n%s\n];\n"%(n,"\n".join(table)))
out.append('''
fn main() -> Result<(), Error> {
    let k: usize = std::env::var("VSIM_COMBO").ok().and_then(|x| x.parse().ok()).expect("VSIM_COMBO");
    COMBOS[k]()
}
''')
open(os.path.join(ROOT,"sim/src/main.rs"),"w").write("".join(out))
print(n)
