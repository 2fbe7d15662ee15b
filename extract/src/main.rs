//! Mechanical extraction of the code of `/repo/manul/src` into Verus input.
//!
//! usage: extract REPO CONTRACTS_DIR OUT.rs OUT.json [--lost KEY,KEY..] 
//!
//! Every function of the listed source files is taken from its current source, rewritten by the
//! syntactic rules in `rewrite.rs` (listed in DESIGN.md), and printed together with the contract
//! stored for it in `/verif/contracts`.  Nothing but contracts comes from `/verif`.
mod contracts;
mod emit;
mod print;
mod rewrite;

use std::{collections::BTreeSet, fs, path::PathBuf};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let repo = PathBuf::from(&args[1]);
    let dir = PathBuf::from(&args[2]);
    let out_rs = &args[3];
    let out_json = &args[4];
    let mut lost = BTreeSet::new();
    let mut i = 5;
    while i < args.len() {
        if args[i] == "--lost" {
            lost.extend(args[i + 1].split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()));
            i += 1;
        }
        i += 1;
    }
    let contracts = contracts::load(&dir);
    let mut em = emit::Emitter::new(contracts, lost);
    em.raw("#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_must_use, unreachable_code, non_camel_case_types, unused_assignments, unreachable_patterns)]\nmod pre {\n");
    em.raw(&fs::read_to_string(dir.join("prelude.rs")).expect("prelude"));
    em.raw("\n}\npub use pre::*;\nuse vstd::prelude::*;\nuse core::marker::PhantomData;\n");
    em.raw("mod sp {\nuse super::*;\nverus! {\nbroadcast use {group_pre, group_coll};\n");
    for (title, props, text) in em.contracts.raws.clone() {
        em.raw_block(&title, props, &text);
    }
    em.raw("\n} // verus!\n}\npub use sp::*;\n");
    em.raw("\nverus! {\nbroadcast use {group_pre, group_coll, group_sp, group_lemmas};\n");
    for file in em.contracts.files.clone() {
        let path = repo.join(&file);
        let text = match fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                em.problem(&format!("cannot read {file}: {e}"));
                continue;
            }
        };
        match syn::parse_file(&text) {
            Ok(ast) => em.file(&file, ast),
            Err(e) => em.problem(&format!("cannot parse {file}: {e}")),
        }
    }
    em.raw("\n} // verus!\nfn main() {}\n");
    em.finish();
    fs::write(out_rs, &em.out).unwrap();
    fs::write(out_json, em.json()).unwrap();
}
