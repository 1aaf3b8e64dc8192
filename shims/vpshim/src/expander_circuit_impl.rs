use crate::engine::FieldEngine;

pub type SegmentId = usize;
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CoefType {
    Constant,
    Random,
    PublicInput(usize),
}
#[derive(Debug, Clone)]
pub struct Gate<C: FieldEngine, const INPUT_NUM: usize> {
    pub i_ids: [usize; INPUT_NUM],
    pub o_id: usize,
    pub coef_type: CoefType,
    pub coef: C::CircuitField,
    pub gate_type: usize,
}
pub type GateMul<C> = Gate<C, 2>;
pub type GateAdd<C> = Gate<C, 1>;
pub type GateUni<C> = Gate<C, 1>;
pub type GateConst<C> = Gate<C, 0>;
#[derive(Debug, Clone)]
pub struct Allocation {
    pub i_offset: usize,
    pub o_offset: usize,
}
#[derive(Debug, Clone)]
pub struct Segment<C: FieldEngine> {
    pub i_var_num: usize,
    pub o_var_num: usize,
    pub child_segs: Vec<(SegmentId, Vec<Allocation>)>,
    pub gate_muls: Vec<GateMul<C>>,
    pub gate_adds: Vec<GateAdd<C>>,
    pub gate_consts: Vec<GateConst<C>>,
    pub gate_uni: Vec<GateUni<C>>,
}
#[derive(Debug, Clone)]
pub struct RecursiveCircuit<C: FieldEngine> {
    pub segments: Vec<Segment<C>>,
    pub layers: Vec<SegmentId>,
    pub num_public_inputs: usize,
    pub num_outputs: usize,
    pub expected_num_output_zeros: usize,
}
/// Not provided: Expander's own flattening is outside this repository.
pub struct Circuit<C: FieldEngine>(pub RecursiveCircuit<C>);
impl<C: FieldEngine> RecursiveCircuit<C> {
    pub fn flatten(&self) -> Circuit<C> {
        Circuit(self.clone())
    }
}
impl<C: FieldEngine> Circuit<C> {
    pub fn pre_process_gkr(&mut self) {}
}
