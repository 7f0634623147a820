// @generated by tools/mkops.py
use crate::refi::Ty::{self, *};
use wasm_encoder::Instruction as I;
pub type OpRow = (I<'static>, &'static [Ty], Ty, &'static str);
pub static SCALAR: &[OpRow] = &[
    (I::F32Abs, &[F32], F32, "F32Abs"),
    (I::F32Add, &[F32, F32], F32, "F32Add"),
    (I::F32Ceil, &[F32], F32, "F32Ceil"),
    (I::F32ConvertI32S, &[I32], F32, "F32ConvertI32S"),
    (I::F32ConvertI32U, &[I32], F32, "F32ConvertI32U"),
    (I::F32ConvertI64S, &[I64], F32, "F32ConvertI64S"),
    (I::F32ConvertI64U, &[I64], F32, "F32ConvertI64U"),
    (I::F32Copysign, &[F32, F32], F32, "F32Copysign"),
    (I::F32DemoteF64, &[F64], F32, "F32DemoteF64"),
    (I::F32Div, &[F32, F32], F32, "F32Div"),
    (I::F32Eq, &[F32, F32], I32, "F32Eq"),
    (I::F32Floor, &[F32], F32, "F32Floor"),
    (I::F32Ge, &[F32, F32], I32, "F32Ge"),
    (I::F32Gt, &[F32, F32], I32, "F32Gt"),
    (I::F32Le, &[F32, F32], I32, "F32Le"),
    (I::F32Lt, &[F32, F32], I32, "F32Lt"),
    (I::F32Max, &[F32, F32], F32, "F32Max"),
    (I::F32Min, &[F32, F32], F32, "F32Min"),
    (I::F32Mul, &[F32, F32], F32, "F32Mul"),
    (I::F32Ne, &[F32, F32], I32, "F32Ne"),
    (I::F32Nearest, &[F32], F32, "F32Nearest"),
    (I::F32Neg, &[F32], F32, "F32Neg"),
    (I::F32ReinterpretI32, &[I32], F32, "F32ReinterpretI32"),
    (I::F32Sqrt, &[F32], F32, "F32Sqrt"),
    (I::F32Sub, &[F32, F32], F32, "F32Sub"),
    (I::F32Trunc, &[F32], F32, "F32Trunc"),
    (I::F64Abs, &[F64], F64, "F64Abs"),
    (I::F64Add, &[F64, F64], F64, "F64Add"),
    (I::F64Ceil, &[F64], F64, "F64Ceil"),
    (I::F64ConvertI32S, &[I32], F64, "F64ConvertI32S"),
    (I::F64ConvertI32U, &[I32], F64, "F64ConvertI32U"),
    (I::F64ConvertI64S, &[I64], F64, "F64ConvertI64S"),
    (I::F64ConvertI64U, &[I64], F64, "F64ConvertI64U"),
    (I::F64Copysign, &[F64, F64], F64, "F64Copysign"),
    (I::F64Div, &[F64, F64], F64, "F64Div"),
    (I::F64Eq, &[F64, F64], I32, "F64Eq"),
    (I::F64Floor, &[F64], F64, "F64Floor"),
    (I::F64Ge, &[F64, F64], I32, "F64Ge"),
    (I::F64Gt, &[F64, F64], I32, "F64Gt"),
    (I::F64Le, &[F64, F64], I32, "F64Le"),
    (I::F64Lt, &[F64, F64], I32, "F64Lt"),
    (I::F64Max, &[F64, F64], F64, "F64Max"),
    (I::F64Min, &[F64, F64], F64, "F64Min"),
    (I::F64Mul, &[F64, F64], F64, "F64Mul"),
    (I::F64Ne, &[F64, F64], I32, "F64Ne"),
    (I::F64Nearest, &[F64], F64, "F64Nearest"),
    (I::F64Neg, &[F64], F64, "F64Neg"),
    (I::F64PromoteF32, &[F32], F64, "F64PromoteF32"),
    (I::F64ReinterpretI64, &[I64], F64, "F64ReinterpretI64"),
    (I::F64Sqrt, &[F64], F64, "F64Sqrt"),
    (I::F64Sub, &[F64, F64], F64, "F64Sub"),
    (I::F64Trunc, &[F64], F64, "F64Trunc"),
    (I::I32Add, &[I32, I32], I32, "I32Add"),
    (I::I32And, &[I32, I32], I32, "I32And"),
    (I::I32Clz, &[I32], I32, "I32Clz"),
    (I::I32Ctz, &[I32], I32, "I32Ctz"),
    (I::I32DivS, &[I32, I32], I32, "I32DivS"),
    (I::I32DivU, &[I32, I32], I32, "I32DivU"),
    (I::I32Eq, &[I32, I32], I32, "I32Eq"),
    (I::I32Eqz, &[I32], I32, "I32Eqz"),
    (I::I32Extend16S, &[I32], I32, "I32Extend16S"),
    (I::I32Extend8S, &[I32], I32, "I32Extend8S"),
    (I::I32GeS, &[I32, I32], I32, "I32GeS"),
    (I::I32GeU, &[I32, I32], I32, "I32GeU"),
    (I::I32GtS, &[I32, I32], I32, "I32GtS"),
    (I::I32GtU, &[I32, I32], I32, "I32GtU"),
    (I::I32LeS, &[I32, I32], I32, "I32LeS"),
    (I::I32LeU, &[I32, I32], I32, "I32LeU"),
    (I::I32LtS, &[I32, I32], I32, "I32LtS"),
    (I::I32LtU, &[I32, I32], I32, "I32LtU"),
    (I::I32Mul, &[I32, I32], I32, "I32Mul"),
    (I::I32Ne, &[I32, I32], I32, "I32Ne"),
    (I::I32Or, &[I32, I32], I32, "I32Or"),
    (I::I32Popcnt, &[I32], I32, "I32Popcnt"),
    (I::I32ReinterpretF32, &[F32], I32, "I32ReinterpretF32"),
    (I::I32RemS, &[I32, I32], I32, "I32RemS"),
    (I::I32RemU, &[I32, I32], I32, "I32RemU"),
    (I::I32Rotl, &[I32, I32], I32, "I32Rotl"),
    (I::I32Rotr, &[I32, I32], I32, "I32Rotr"),
    (I::I32Shl, &[I32, I32], I32, "I32Shl"),
    (I::I32ShrS, &[I32, I32], I32, "I32ShrS"),
    (I::I32ShrU, &[I32, I32], I32, "I32ShrU"),
    (I::I32Sub, &[I32, I32], I32, "I32Sub"),
    (I::I32TruncF32S, &[F32], I32, "I32TruncF32S"),
    (I::I32TruncF32U, &[F32], I32, "I32TruncF32U"),
    (I::I32TruncF64S, &[F64], I32, "I32TruncF64S"),
    (I::I32TruncF64U, &[F64], I32, "I32TruncF64U"),
    (I::I32TruncSatF32S, &[F32], I32, "I32TruncSatF32S"),
    (I::I32TruncSatF32U, &[F32], I32, "I32TruncSatF32U"),
    (I::I32TruncSatF64S, &[F64], I32, "I32TruncSatF64S"),
    (I::I32TruncSatF64U, &[F64], I32, "I32TruncSatF64U"),
    (I::I32WrapI64, &[I64], I32, "I32WrapI64"),
    (I::I32Xor, &[I32, I32], I32, "I32Xor"),
    (I::I64And, &[I64, I64], I64, "I64And"),
    (I::I64Add, &[I64, I64], I64, "I64Add"),
    (I::I64Clz, &[I64], I64, "I64Clz"),
    (I::I64Ctz, &[I64], I64, "I64Ctz"),
    (I::I64DivS, &[I64, I64], I64, "I64DivS"),
    (I::I64DivU, &[I64, I64], I64, "I64DivU"),
    (I::I64Eq, &[I64, I64], I32, "I64Eq"),
    (I::I64Eqz, &[I64], I32, "I64Eqz"),
    (I::I64Extend16S, &[I64], I64, "I64Extend16S"),
    (I::I64Extend32S, &[I64], I64, "I64Extend32S"),
    (I::I64Extend8S, &[I64], I64, "I64Extend8S"),
    (I::I64ExtendI32S, &[I32], I64, "I64ExtendI32S"),
    (I::I64ExtendI32U, &[I32], I64, "I64ExtendI32U"),
    (I::I64GeS, &[I64, I64], I32, "I64GeS"),
    (I::I64GeU, &[I64, I64], I32, "I64GeU"),
    (I::I64GtS, &[I64, I64], I32, "I64GtS"),
    (I::I64GtU, &[I64, I64], I32, "I64GtU"),
    (I::I64LeS, &[I64, I64], I32, "I64LeS"),
    (I::I64LeU, &[I64, I64], I32, "I64LeU"),
    (I::I64LtS, &[I64, I64], I32, "I64LtS"),
    (I::I64LtU, &[I64, I64], I32, "I64LtU"),
    (I::I64Mul, &[I64, I64], I64, "I64Mul"),
    (I::I64Ne, &[I64, I64], I32, "I64Ne"),
    (I::I64Or, &[I64, I64], I64, "I64Or"),
    (I::I64Popcnt, &[I64], I64, "I64Popcnt"),
    (I::I64ReinterpretF64, &[F64], I64, "I64ReinterpretF64"),
    (I::I64RemS, &[I64, I64], I64, "I64RemS"),
    (I::I64RemU, &[I64, I64], I64, "I64RemU"),
    (I::I64Rotl, &[I64, I64], I64, "I64Rotl"),
    (I::I64Rotr, &[I64, I64], I64, "I64Rotr"),
    (I::I64Shl, &[I64, I64], I64, "I64Shl"),
    (I::I64ShrS, &[I64, I64], I64, "I64ShrS"),
    (I::I64ShrU, &[I64, I64], I64, "I64ShrU"),
    (I::I64Sub, &[I64, I64], I64, "I64Sub"),
    (I::I64TruncF32S, &[F32], I64, "I64TruncF32S"),
    (I::I64TruncF32U, &[F32], I64, "I64TruncF32U"),
    (I::I64TruncF64S, &[F64], I64, "I64TruncF64S"),
    (I::I64TruncF64U, &[F64], I64, "I64TruncF64U"),
    (I::I64TruncSatF32S, &[F32], I64, "I64TruncSatF32S"),
    (I::I64TruncSatF32U, &[F32], I64, "I64TruncSatF32U"),
    (I::I64TruncSatF64S, &[F64], I64, "I64TruncSatF64S"),
    (I::I64TruncSatF64U, &[F64], I64, "I64TruncSatF64U"),
    (I::I64Xor, &[I64, I64], I64, "I64Xor"),
];
pub static SIMD: &[OpRow] = &[
    (I::F32x4Abs, &[V128], V128, "F32x4Abs"),
    (I::F32x4Add, &[V128, V128], V128, "F32x4Add"),
    (I::F32x4Ceil, &[V128], V128, "F32x4Ceil"),
    (I::F32x4ConvertI32x4S, &[V128], V128, "F32x4ConvertI32x4S"),
    (I::F32x4ConvertI32x4U, &[V128], V128, "F32x4ConvertI32x4U"),
    (I::F32x4DemoteF64x2Zero, &[V128], V128, "F32x4DemoteF64x2Zero"),
    (I::F32x4Div, &[V128, V128], V128, "F32x4Div"),
    (I::F32x4Eq, &[V128, V128], V128, "F32x4Eq"),
    (I::F32x4Floor, &[V128], V128, "F32x4Floor"),
    (I::F32x4Ge, &[V128, V128], V128, "F32x4Ge"),
    (I::F32x4Gt, &[V128, V128], V128, "F32x4Gt"),
    (I::F32x4Le, &[V128, V128], V128, "F32x4Le"),
    (I::F32x4Lt, &[V128, V128], V128, "F32x4Lt"),
    (I::F32x4Max, &[V128, V128], V128, "F32x4Max"),
    (I::F32x4Min, &[V128, V128], V128, "F32x4Min"),
    (I::F32x4Mul, &[V128, V128], V128, "F32x4Mul"),
    (I::F32x4Ne, &[V128, V128], V128, "F32x4Ne"),
    (I::F32x4Nearest, &[V128], V128, "F32x4Nearest"),
    (I::F32x4Neg, &[V128], V128, "F32x4Neg"),
    (I::F32x4PMax, &[V128, V128], V128, "F32x4PMax"),
    (I::F32x4PMin, &[V128, V128], V128, "F32x4PMin"),
    (I::F32x4Splat, &[F32], V128, "F32x4Splat"),
    (I::F32x4Sqrt, &[V128], V128, "F32x4Sqrt"),
    (I::F32x4Sub, &[V128, V128], V128, "F32x4Sub"),
    (I::F32x4Trunc, &[V128], V128, "F32x4Trunc"),
    (I::F64x2Abs, &[V128], V128, "F64x2Abs"),
    (I::F64x2Add, &[V128, V128], V128, "F64x2Add"),
    (I::F64x2Ceil, &[V128], V128, "F64x2Ceil"),
    (I::F64x2ConvertLowI32x4S, &[V128], V128, "F64x2ConvertLowI32x4S"),
    (I::F64x2ConvertLowI32x4U, &[V128], V128, "F64x2ConvertLowI32x4U"),
    (I::F64x2Div, &[V128, V128], V128, "F64x2Div"),
    (I::F64x2Eq, &[V128, V128], V128, "F64x2Eq"),
    (I::F64x2Floor, &[V128], V128, "F64x2Floor"),
    (I::F64x2Ge, &[V128, V128], V128, "F64x2Ge"),
    (I::F64x2Gt, &[V128, V128], V128, "F64x2Gt"),
    (I::F64x2Le, &[V128, V128], V128, "F64x2Le"),
    (I::F64x2Lt, &[V128, V128], V128, "F64x2Lt"),
    (I::F64x2Max, &[V128, V128], V128, "F64x2Max"),
    (I::F64x2Min, &[V128, V128], V128, "F64x2Min"),
    (I::F64x2Mul, &[V128, V128], V128, "F64x2Mul"),
    (I::F64x2Ne, &[V128, V128], V128, "F64x2Ne"),
    (I::F64x2Nearest, &[V128], V128, "F64x2Nearest"),
    (I::F64x2Neg, &[V128], V128, "F64x2Neg"),
    (I::F64x2PMax, &[V128, V128], V128, "F64x2PMax"),
    (I::F64x2PMin, &[V128, V128], V128, "F64x2PMin"),
    (I::F64x2PromoteLowF32x4, &[V128], V128, "F64x2PromoteLowF32x4"),
    (I::F64x2Splat, &[F64], V128, "F64x2Splat"),
    (I::F64x2Sqrt, &[V128], V128, "F64x2Sqrt"),
    (I::F64x2Sub, &[V128, V128], V128, "F64x2Sub"),
    (I::F64x2Trunc, &[V128], V128, "F64x2Trunc"),
    (I::I16x8Abs, &[V128], V128, "I16x8Abs"),
    (I::I16x8Add, &[V128, V128], V128, "I16x8Add"),
    (I::I16x8AddSatS, &[V128, V128], V128, "I16x8AddSatS"),
    (I::I16x8AddSatU, &[V128, V128], V128, "I16x8AddSatU"),
    (I::I16x8AllTrue, &[V128], I32, "I16x8AllTrue"),
    (I::I16x8AvgrU, &[V128, V128], V128, "I16x8AvgrU"),
    (I::I16x8Bitmask, &[V128], I32, "I16x8Bitmask"),
    (I::I16x8Eq, &[V128, V128], V128, "I16x8Eq"),
    (I::I16x8ExtAddPairwiseI8x16S, &[V128], V128, "I16x8ExtAddPairwiseI8x16S"),
    (I::I16x8ExtAddPairwiseI8x16U, &[V128], V128, "I16x8ExtAddPairwiseI8x16U"),
    (I::I16x8ExtMulHighI8x16S, &[V128, V128], V128, "I16x8ExtMulHighI8x16S"),
    (I::I16x8ExtMulHighI8x16U, &[V128, V128], V128, "I16x8ExtMulHighI8x16U"),
    (I::I16x8ExtMulLowI8x16S, &[V128, V128], V128, "I16x8ExtMulLowI8x16S"),
    (I::I16x8ExtMulLowI8x16U, &[V128, V128], V128, "I16x8ExtMulLowI8x16U"),
    (I::I16x8ExtendHighI8x16S, &[V128], V128, "I16x8ExtendHighI8x16S"),
    (I::I16x8ExtendHighI8x16U, &[V128], V128, "I16x8ExtendHighI8x16U"),
    (I::I16x8ExtendLowI8x16S, &[V128], V128, "I16x8ExtendLowI8x16S"),
    (I::I16x8ExtendLowI8x16U, &[V128], V128, "I16x8ExtendLowI8x16U"),
    (I::I16x8GeS, &[V128, V128], V128, "I16x8GeS"),
    (I::I16x8GeU, &[V128, V128], V128, "I16x8GeU"),
    (I::I16x8GtS, &[V128, V128], V128, "I16x8GtS"),
    (I::I16x8GtU, &[V128, V128], V128, "I16x8GtU"),
    (I::I16x8LeS, &[V128, V128], V128, "I16x8LeS"),
    (I::I16x8LeU, &[V128, V128], V128, "I16x8LeU"),
    (I::I16x8LtS, &[V128, V128], V128, "I16x8LtS"),
    (I::I16x8LtU, &[V128, V128], V128, "I16x8LtU"),
    (I::I16x8MaxS, &[V128, V128], V128, "I16x8MaxS"),
    (I::I16x8MaxU, &[V128, V128], V128, "I16x8MaxU"),
    (I::I16x8MinS, &[V128, V128], V128, "I16x8MinS"),
    (I::I16x8MinU, &[V128, V128], V128, "I16x8MinU"),
    (I::I16x8Mul, &[V128, V128], V128, "I16x8Mul"),
    (I::I16x8NarrowI32x4S, &[V128, V128], V128, "I16x8NarrowI32x4S"),
    (I::I16x8NarrowI32x4U, &[V128, V128], V128, "I16x8NarrowI32x4U"),
    (I::I16x8Ne, &[V128, V128], V128, "I16x8Ne"),
    (I::I16x8Neg, &[V128], V128, "I16x8Neg"),
    (I::I16x8Q15MulrSatS, &[V128, V128], V128, "I16x8Q15MulrSatS"),
    (I::I16x8Shl, &[V128, I32], V128, "I16x8Shl"),
    (I::I16x8ShrS, &[V128, I32], V128, "I16x8ShrS"),
    (I::I16x8ShrU, &[V128, I32], V128, "I16x8ShrU"),
    (I::I16x8Splat, &[I32], V128, "I16x8Splat"),
    (I::I16x8Sub, &[V128, V128], V128, "I16x8Sub"),
    (I::I16x8SubSatS, &[V128, V128], V128, "I16x8SubSatS"),
    (I::I16x8SubSatU, &[V128, V128], V128, "I16x8SubSatU"),
    (I::I32x4Abs, &[V128], V128, "I32x4Abs"),
    (I::I32x4Add, &[V128, V128], V128, "I32x4Add"),
    (I::I32x4AllTrue, &[V128], I32, "I32x4AllTrue"),
    (I::I32x4Bitmask, &[V128], I32, "I32x4Bitmask"),
    (I::I32x4DotI16x8S, &[V128, V128], V128, "I32x4DotI16x8S"),
    (I::I32x4Eq, &[V128, V128], V128, "I32x4Eq"),
    (I::I32x4ExtAddPairwiseI16x8S, &[V128], V128, "I32x4ExtAddPairwiseI16x8S"),
    (I::I32x4ExtAddPairwiseI16x8U, &[V128], V128, "I32x4ExtAddPairwiseI16x8U"),
    (I::I32x4ExtMulHighI16x8S, &[V128, V128], V128, "I32x4ExtMulHighI16x8S"),
    (I::I32x4ExtMulHighI16x8U, &[V128, V128], V128, "I32x4ExtMulHighI16x8U"),
    (I::I32x4ExtMulLowI16x8S, &[V128, V128], V128, "I32x4ExtMulLowI16x8S"),
    (I::I32x4ExtMulLowI16x8U, &[V128, V128], V128, "I32x4ExtMulLowI16x8U"),
    (I::I32x4ExtendHighI16x8S, &[V128], V128, "I32x4ExtendHighI16x8S"),
    (I::I32x4ExtendHighI16x8U, &[V128], V128, "I32x4ExtendHighI16x8U"),
    (I::I32x4ExtendLowI16x8S, &[V128], V128, "I32x4ExtendLowI16x8S"),
    (I::I32x4ExtendLowI16x8U, &[V128], V128, "I32x4ExtendLowI16x8U"),
    (I::I32x4GeS, &[V128, V128], V128, "I32x4GeS"),
    (I::I32x4GeU, &[V128, V128], V128, "I32x4GeU"),
    (I::I32x4GtS, &[V128, V128], V128, "I32x4GtS"),
    (I::I32x4GtU, &[V128, V128], V128, "I32x4GtU"),
    (I::I32x4LeS, &[V128, V128], V128, "I32x4LeS"),
    (I::I32x4LeU, &[V128, V128], V128, "I32x4LeU"),
    (I::I32x4LtS, &[V128, V128], V128, "I32x4LtS"),
    (I::I32x4LtU, &[V128, V128], V128, "I32x4LtU"),
    (I::I32x4MaxS, &[V128, V128], V128, "I32x4MaxS"),
    (I::I32x4MaxU, &[V128, V128], V128, "I32x4MaxU"),
    (I::I32x4MinS, &[V128, V128], V128, "I32x4MinS"),
    (I::I32x4MinU, &[V128, V128], V128, "I32x4MinU"),
    (I::I32x4Mul, &[V128, V128], V128, "I32x4Mul"),
    (I::I32x4Ne, &[V128, V128], V128, "I32x4Ne"),
    (I::I32x4Neg, &[V128], V128, "I32x4Neg"),
    (I::I32x4Shl, &[V128, I32], V128, "I32x4Shl"),
    (I::I32x4ShrS, &[V128, I32], V128, "I32x4ShrS"),
    (I::I32x4ShrU, &[V128, I32], V128, "I32x4ShrU"),
    (I::I32x4Splat, &[I32], V128, "I32x4Splat"),
    (I::I32x4Sub, &[V128, V128], V128, "I32x4Sub"),
    (I::I32x4TruncSatF32x4S, &[V128], V128, "I32x4TruncSatF32x4S"),
    (I::I32x4TruncSatF32x4U, &[V128], V128, "I32x4TruncSatF32x4U"),
    (I::I32x4TruncSatF64x2SZero, &[V128], V128, "I32x4TruncSatF64x2SZero"),
    (I::I32x4TruncSatF64x2UZero, &[V128], V128, "I32x4TruncSatF64x2UZero"),
    (I::I64x2Abs, &[V128], V128, "I64x2Abs"),
    (I::I64x2Add, &[V128, V128], V128, "I64x2Add"),
    (I::I64x2AllTrue, &[V128], I32, "I64x2AllTrue"),
    (I::I64x2Bitmask, &[V128], I32, "I64x2Bitmask"),
    (I::I64x2Eq, &[V128, V128], V128, "I64x2Eq"),
    (I::I64x2ExtMulHighI32x4S, &[V128, V128], V128, "I64x2ExtMulHighI32x4S"),
    (I::I64x2ExtMulHighI32x4U, &[V128, V128], V128, "I64x2ExtMulHighI32x4U"),
    (I::I64x2ExtMulLowI32x4S, &[V128, V128], V128, "I64x2ExtMulLowI32x4S"),
    (I::I64x2ExtMulLowI32x4U, &[V128, V128], V128, "I64x2ExtMulLowI32x4U"),
    (I::I64x2ExtendHighI32x4S, &[V128], V128, "I64x2ExtendHighI32x4S"),
    (I::I64x2ExtendHighI32x4U, &[V128], V128, "I64x2ExtendHighI32x4U"),
    (I::I64x2ExtendLowI32x4S, &[V128], V128, "I64x2ExtendLowI32x4S"),
    (I::I64x2ExtendLowI32x4U, &[V128], V128, "I64x2ExtendLowI32x4U"),
    (I::I64x2GeS, &[V128, V128], V128, "I64x2GeS"),
    (I::I64x2GtS, &[V128, V128], V128, "I64x2GtS"),
    (I::I64x2LeS, &[V128, V128], V128, "I64x2LeS"),
    (I::I64x2LtS, &[V128, V128], V128, "I64x2LtS"),
    (I::I64x2Mul, &[V128, V128], V128, "I64x2Mul"),
    (I::I64x2Ne, &[V128, V128], V128, "I64x2Ne"),
    (I::I64x2Neg, &[V128], V128, "I64x2Neg"),
    (I::I64x2Shl, &[V128, I32], V128, "I64x2Shl"),
    (I::I64x2ShrS, &[V128, I32], V128, "I64x2ShrS"),
    (I::I64x2ShrU, &[V128, I32], V128, "I64x2ShrU"),
    (I::I64x2Splat, &[I64], V128, "I64x2Splat"),
    (I::I64x2Sub, &[V128, V128], V128, "I64x2Sub"),
    (I::I8x16Abs, &[V128], V128, "I8x16Abs"),
    (I::I8x16Add, &[V128, V128], V128, "I8x16Add"),
    (I::I8x16AddSatS, &[V128, V128], V128, "I8x16AddSatS"),
    (I::I8x16AddSatU, &[V128, V128], V128, "I8x16AddSatU"),
    (I::I8x16AllTrue, &[V128], I32, "I8x16AllTrue"),
    (I::I8x16AvgrU, &[V128, V128], V128, "I8x16AvgrU"),
    (I::I8x16Bitmask, &[V128], I32, "I8x16Bitmask"),
    (I::I8x16Eq, &[V128, V128], V128, "I8x16Eq"),
    (I::I8x16GeS, &[V128, V128], V128, "I8x16GeS"),
    (I::I8x16GeU, &[V128, V128], V128, "I8x16GeU"),
    (I::I8x16GtS, &[V128, V128], V128, "I8x16GtS"),
    (I::I8x16GtU, &[V128, V128], V128, "I8x16GtU"),
    (I::I8x16LeS, &[V128, V128], V128, "I8x16LeS"),
    (I::I8x16LeU, &[V128, V128], V128, "I8x16LeU"),
    (I::I8x16LtS, &[V128, V128], V128, "I8x16LtS"),
    (I::I8x16LtU, &[V128, V128], V128, "I8x16LtU"),
    (I::I8x16MaxS, &[V128, V128], V128, "I8x16MaxS"),
    (I::I8x16MaxU, &[V128, V128], V128, "I8x16MaxU"),
    (I::I8x16MinS, &[V128, V128], V128, "I8x16MinS"),
    (I::I8x16MinU, &[V128, V128], V128, "I8x16MinU"),
    (I::I8x16NarrowI16x8S, &[V128, V128], V128, "I8x16NarrowI16x8S"),
    (I::I8x16NarrowI16x8U, &[V128, V128], V128, "I8x16NarrowI16x8U"),
    (I::I8x16Ne, &[V128, V128], V128, "I8x16Ne"),
    (I::I8x16Neg, &[V128], V128, "I8x16Neg"),
    (I::I8x16Popcnt, &[V128], V128, "I8x16Popcnt"),
    (I::I8x16Shl, &[V128, I32], V128, "I8x16Shl"),
    (I::I8x16ShrS, &[V128, I32], V128, "I8x16ShrS"),
    (I::I8x16ShrU, &[V128, I32], V128, "I8x16ShrU"),
    (I::I8x16Splat, &[I32], V128, "I8x16Splat"),
    (I::I8x16Sub, &[V128, V128], V128, "I8x16Sub"),
    (I::I8x16SubSatS, &[V128, V128], V128, "I8x16SubSatS"),
    (I::I8x16SubSatU, &[V128, V128], V128, "I8x16SubSatU"),
    (I::I8x16Swizzle, &[V128, V128], V128, "I8x16Swizzle"),
    (I::V128And, &[V128, V128], V128, "V128And"),
    (I::V128AndNot, &[V128, V128], V128, "V128AndNot"),
    (I::V128AnyTrue, &[V128], I32, "V128AnyTrue"),
    (I::V128Bitselect, &[V128, V128, V128], V128, "V128Bitselect"),
    (I::V128Not, &[V128], V128, "V128Not"),
    (I::V128Or, &[V128, V128], V128, "V128Or"),
    (I::V128Xor, &[V128, V128], V128, "V128Xor"),
];
pub static RELAXED: &[OpRow] = &[
    (I::I8x16RelaxedSwizzle, &[V128, V128], V128, "I8x16RelaxedSwizzle"),
    (I::I32x4RelaxedTruncF32x4S, &[V128], V128, "I32x4RelaxedTruncF32x4S"),
    (I::I32x4RelaxedTruncF32x4U, &[V128], V128, "I32x4RelaxedTruncF32x4U"),
    (I::I32x4RelaxedTruncF64x2SZero, &[V128], V128, "I32x4RelaxedTruncF64x2SZero"),
    (I::I32x4RelaxedTruncF64x2UZero, &[V128], V128, "I32x4RelaxedTruncF64x2UZero"),
    (I::F32x4RelaxedMadd, &[V128, V128, V128], V128, "F32x4RelaxedMadd"),
    (I::F32x4RelaxedNmadd, &[V128, V128, V128], V128, "F32x4RelaxedNmadd"),
    (I::F64x2RelaxedMadd, &[V128, V128, V128], V128, "F64x2RelaxedMadd"),
    (I::F64x2RelaxedNmadd, &[V128, V128, V128], V128, "F64x2RelaxedNmadd"),
    (I::I8x16RelaxedLaneselect, &[V128, V128, V128], V128, "I8x16RelaxedLaneselect"),
    (I::I16x8RelaxedLaneselect, &[V128, V128, V128], V128, "I16x8RelaxedLaneselect"),
    (I::I32x4RelaxedLaneselect, &[V128, V128, V128], V128, "I32x4RelaxedLaneselect"),
    (I::I64x2RelaxedLaneselect, &[V128, V128, V128], V128, "I64x2RelaxedLaneselect"),
    (I::F32x4RelaxedMin, &[V128, V128], V128, "F32x4RelaxedMin"),
    (I::F32x4RelaxedMax, &[V128, V128], V128, "F32x4RelaxedMax"),
    (I::F64x2RelaxedMin, &[V128, V128], V128, "F64x2RelaxedMin"),
    (I::F64x2RelaxedMax, &[V128, V128], V128, "F64x2RelaxedMax"),
    (I::I16x8RelaxedQ15mulrS, &[V128, V128], V128, "I16x8RelaxedQ15mulrS"),
    (I::I16x8RelaxedDotI8x16I7x16S, &[V128, V128], V128, "I16x8RelaxedDotI8x16I7x16S"),
    (I::I32x4RelaxedDotI8x16I7x16AddS, &[V128, V128, V128], V128, "I32x4RelaxedDotI8x16I7x16AddS"),
];
