#!/usr/bin/env python3
"""Regenerates harness/src/ops.rs: the table of plain numeric operators with their signatures (spec Appendix)."""
import re
S="F32Abs F32Add F32Ceil F32ConvertI32S F32ConvertI32U F32ConvertI64S F32ConvertI64U F32Copysign F32DemoteF64 F32Div F32Eq F32Floor F32Ge F32Gt F32Le F32Lt F32Max F32Min F32Mul F32Ne F32Nearest F32Neg F32ReinterpretI32 F32Sqrt F32Sub F32Trunc F64Abs F64Add F64Ceil F64ConvertI32S F64ConvertI32U F64ConvertI64S F64ConvertI64U F64Copysign F64Div F64Eq F64Floor F64Ge F64Gt F64Le F64Lt F64Max F64Min F64Mul F64Ne F64Nearest F64Neg F64PromoteF32 F64ReinterpretI64 F64Sqrt F64Sub F64Trunc I32Add I32And I32Clz I32Ctz I32DivS I32DivU I32Eq I32Eqz I32Extend16S I32Extend8S I32GeS I32GeU I32GtS I32GtU I32LeS I32LeU I32LtS I32LtU I32Mul I32Ne I32Or I32Popcnt I32ReinterpretF32 I32RemS I32RemU I32Rotl I32Rotr I32Shl I32ShrS I32ShrU I32Sub I32TruncF32S I32TruncF32U I32TruncF64S I32TruncF64U I32TruncSatF32S I32TruncSatF32U I32TruncSatF64S I32TruncSatF64U I32WrapI64 I32Xor I64And I64Add I64Clz I64Ctz I64DivS I64DivU I64Eq I64Eqz I64Extend16S I64Extend32S I64Extend8S I64ExtendI32S I64ExtendI32U I64GeS I64GeU I64GtS I64GtU I64LeS I64LeU I64LtS I64LtU I64Mul I64Ne I64Or I64Popcnt I64ReinterpretF64 I64RemS I64RemU I64Rotl I64Rotr I64Shl I64ShrS I64ShrU I64Sub I64TruncF32S I64TruncF32U I64TruncF64S I64TruncF64U I64TruncSatF32S I64TruncSatF32U I64TruncSatF64S I64TruncSatF64U I64Xor".split()
V="F32x4Abs F32x4Add F32x4Ceil F32x4ConvertI32x4S F32x4ConvertI32x4U F32x4DemoteF64x2Zero F32x4Div F32x4Eq F32x4Floor F32x4Ge F32x4Gt F32x4Le F32x4Lt F32x4Max F32x4Min F32x4Mul F32x4Ne F32x4Nearest F32x4Neg F32x4PMax F32x4PMin F32x4Splat F32x4Sqrt F32x4Sub F32x4Trunc F64x2Abs F64x2Add F64x2Ceil F64x2ConvertLowI32x4S F64x2ConvertLowI32x4U F64x2Div F64x2Eq F64x2Floor F64x2Ge F64x2Gt F64x2Le F64x2Lt F64x2Max F64x2Min F64x2Mul F64x2Ne F64x2Nearest F64x2Neg F64x2PMax F64x2PMin F64x2PromoteLowF32x4 F64x2Splat F64x2Sqrt F64x2Sub F64x2Trunc I16x8Abs I16x8Add I16x8AddSatS I16x8AddSatU I16x8AllTrue I16x8AvgrU I16x8Bitmask I16x8Eq I16x8ExtAddPairwiseI8x16S I16x8ExtAddPairwiseI8x16U I16x8ExtMulHighI8x16S I16x8ExtMulHighI8x16U I16x8ExtMulLowI8x16S I16x8ExtMulLowI8x16U I16x8ExtendHighI8x16S I16x8ExtendHighI8x16U I16x8ExtendLowI8x16S I16x8ExtendLowI8x16U I16x8GeS I16x8GeU I16x8GtS I16x8GtU I16x8LeS I16x8LeU I16x8LtS I16x8LtU I16x8MaxS I16x8MaxU I16x8MinS I16x8MinU I16x8Mul I16x8NarrowI32x4S I16x8NarrowI32x4U I16x8Ne I16x8Neg I16x8Q15MulrSatS I16x8Shl I16x8ShrS I16x8ShrU I16x8Splat I16x8Sub I16x8SubSatS I16x8SubSatU I32x4Abs I32x4Add I32x4AllTrue I32x4Bitmask I32x4DotI16x8S I32x4Eq I32x4ExtAddPairwiseI16x8S I32x4ExtAddPairwiseI16x8U I32x4ExtMulHighI16x8S I32x4ExtMulHighI16x8U I32x4ExtMulLowI16x8S I32x4ExtMulLowI16x8U I32x4ExtendHighI16x8S I32x4ExtendHighI16x8U I32x4ExtendLowI16x8S I32x4ExtendLowI16x8U I32x4GeS I32x4GeU I32x4GtS I32x4GtU I32x4LeS I32x4LeU I32x4LtS I32x4LtU I32x4MaxS I32x4MaxU I32x4MinS I32x4MinU I32x4Mul I32x4Ne I32x4Neg I32x4Shl I32x4ShrS I32x4ShrU I32x4Splat I32x4Sub I32x4TruncSatF32x4S I32x4TruncSatF32x4U I32x4TruncSatF64x2SZero I32x4TruncSatF64x2UZero I64x2Abs I64x2Add I64x2AllTrue I64x2Bitmask I64x2Eq I64x2ExtMulHighI32x4S I64x2ExtMulHighI32x4U I64x2ExtMulLowI32x4S I64x2ExtMulLowI32x4U I64x2ExtendHighI32x4S I64x2ExtendHighI32x4U I64x2ExtendLowI32x4S I64x2ExtendLowI32x4U I64x2GeS I64x2GtS I64x2LeS I64x2LtS I64x2Mul I64x2Ne I64x2Neg I64x2Shl I64x2ShrS I64x2ShrU I64x2Splat I64x2Sub I8x16Abs I8x16Add I8x16AddSatS I8x16AddSatU I8x16AllTrue I8x16AvgrU I8x16Bitmask I8x16Eq I8x16GeS I8x16GeU I8x16GtS I8x16GtU I8x16LeS I8x16LeU I8x16LtS I8x16LtU I8x16MaxS I8x16MaxU I8x16MinS I8x16MinU I8x16NarrowI16x8S I8x16NarrowI16x8U I8x16Ne I8x16Neg I8x16Popcnt I8x16Shl I8x16ShrS I8x16ShrU I8x16Splat I8x16Sub I8x16SubSatS I8x16SubSatU I8x16Swizzle V128And V128AndNot V128AnyTrue V128Bitselect V128Not V128Or V128Xor".split()
R="I8x16RelaxedSwizzle I32x4RelaxedTruncF32x4S I32x4RelaxedTruncF32x4U I32x4RelaxedTruncF64x2SZero I32x4RelaxedTruncF64x2UZero F32x4RelaxedMadd F32x4RelaxedNmadd F64x2RelaxedMadd F64x2RelaxedNmadd I8x16RelaxedLaneselect I16x8RelaxedLaneselect I32x4RelaxedLaneselect I64x2RelaxedLaneselect F32x4RelaxedMin F32x4RelaxedMax F64x2RelaxedMin F64x2RelaxedMax I16x8RelaxedQ15mulrS I16x8RelaxedDotI8x16I7x16S I32x4RelaxedDotI8x16I7x16AddS".split()
def sigS(n):
    t,op=n[:3],n[3:]
    if op in("Eqz",): return [t],"I32"
    if op in("Clz","Ctz","Popcnt","Extend8S","Extend16S","Extend32S","Abs","Neg","Ceil","Floor","Trunc","Nearest","Sqrt"): return [t],t
    if op in("Eq","Ne","Lt","Gt","Le","Ge") or re.match(r"(Lt|Gt|Le|Ge)[SU]$",op): return [t,t],"I32"
    m=re.match(r"(ConvertI|DemoteF|PromoteF|ReinterpretI|ReinterpretF|WrapI|ExtendI|TruncF|TruncSatF)(32|64)",op)
    if m: return [m.group(1)[-1]+m.group(2)],t
    return [t,t],t
def sigV(n):
    if n=="V128AnyTrue" or n.endswith("AllTrue") or n.endswith("Bitmask"): return ["V128"],"I32"
    if n=="V128Not": return ["V128"],"V128"
    if n=="V128Bitselect": return ["V128"]*3,"V128"
    s,op=n[:5],n[5:]
    if op=="Splat": return [{"I8x16":"I32","I16x8":"I32","I32x4":"I32","I64x2":"I64","F32x4":"F32","F64x2":"F64"}[s]],"V128"
    if op in("Shl","ShrS","ShrU"): return ["V128","I32"],"V128"
    if op in("Abs","Neg","Ceil","Floor","Trunc","Nearest","Sqrt","Popcnt") or re.match(r"(ExtAdd|Extend|Convert|Demote|Promote|TruncSat|RelaxedTrunc)",op): return ["V128"],"V128"
    if "add" in op.lower() and op.startswith("Relaxed") or "Laneselect" in op: return ["V128"]*3,"V128"
    return ["V128"]*2,"V128"
o=["// @generated by tools/mkops.py","use crate::refi::Ty::{self, *};","use wasm_encoder::Instruction as I;",
   "pub type OpRow = (I<'static>, &'static [Ty], Ty, &'static str);"]
for name,lst,f in(("SCALAR",S,sigS),("SIMD",V,sigV),("RELAXED",R,sigV)):
    o.append(f"pub static {name}: &[OpRow] = &[")
    for n in lst:
        a,r=f(n); o.append(f'    (I::{n}, &[{", ".join(a)}], {r}, "{n}"),')
    o.append("];")
open(__file__.rsplit("/",2)[0]+"/harness/src/ops.rs","w").write("\n".join(o)+"\n")
