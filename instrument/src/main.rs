//! instrument IN.wasm OUT.wasm
//!
//! Adds an exported global `__fuel` that every iteration of every loop decrements; the instance
//! traps when it reaches zero. A call that never returns becomes a deterministic failure.
use walrus::ir::{BinaryOp, Instr, InstrSeqId, UnaryOp, Value};
use walrus::{ConstExpr, GlobalId, InstrLocId, LocalFunction, Module, ValType};

fn loops(f: &LocalFunction) -> Vec<InstrSeqId> {
    struct V(Vec<InstrSeqId>);
    impl<'a> walrus::ir::Visitor<'a> for V {
        fn visit_loop(&mut self, l: &walrus::ir::Loop) {
            self.0.push(l.seq);
        }
    }
    let mut v = V(Vec::new());
    walrus::ir::dfs_in_order(&mut v, f, f.entry_block());
    v.0
}

fn guard(f: &mut LocalFunction, seq: InstrSeqId, fuel: GlobalId) {
    let trap = f.builder_mut().dangling_instr_seq(None).id();
    let none = f.builder_mut().dangling_instr_seq(None).id();
    f.block_mut(trap).instrs.push((Instr::from(walrus::ir::Unreachable {}), InstrLocId::default()));
    let new: Vec<Instr> = vec![
        walrus::ir::GlobalGet { global: fuel }.into(),
        walrus::ir::Const { value: Value::I32(1) }.into(),
        walrus::ir::Binop { op: BinaryOp::I32Sub }.into(),
        walrus::ir::GlobalSet { global: fuel }.into(),
        walrus::ir::GlobalGet { global: fuel }.into(),
        walrus::ir::Unop { op: UnaryOp::I32Eqz }.into(),
        walrus::ir::IfElse { consequent: trap, alternative: none }.into(),
    ];
    let b = f.block_mut(seq);
    let old = std::mem::take(&mut b.instrs);
    b.instrs = new.into_iter().map(|i| (i, InstrLocId::default())).chain(old).collect();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut m = Module::from_file(&args[1]).expect("parse");
    let fuel = m.globals.add_local(ValType::I32, true, false, ConstExpr::Value(Value::I32(i32::MAX)));
    m.exports.add("__fuel", fuel);
    let mut n = 0;
    for (_, f) in m.funcs.iter_local_mut() {
        for seq in loops(f) {
            guard(f, seq, fuel);
            n += 1;
        }
    }
    assert!(n > 0, "no loops found");
    m.emit_wasm_file(&args[2]).expect("emit");
}
