use crate::core::Cx;
mod arith;
mod assigned;
pub mod gadget;
pub mod gdom;
mod gecc;
mod ghash;
mod gsin;
mod gutil;
mod hash;
mod layout;
mod mock;
mod multiexp;
mod pcs;
mod plonk;
mod plonk2;
mod rec;
mod shapes;
pub mod symt;
mod util;

pub fn dispatch(id: &str, cx: &mut Cx) -> bool {
    match id {
        "P01" => arith::p01(cx),
        "P02" => multiexp::p02(cx),
        "P03" => arith::p03(cx),
        "P04" => assigned::p04(cx),
        "P05" => assigned::p05(cx),
        "P06" => pcs::p06(cx),
        "P07" => pcs::p07(cx),
        "P08" => pcs::p08(cx),
        "P09" => pcs::p09(cx),
        "P10" => plonk::p10(cx),
        "P11" => plonk::p11(cx),
        "P12" => hash::p12(cx),
        "P13" => plonk2::p13(cx),
        "P14" => plonk2::p14(cx),
        "P15" => mock::p15(cx),
        "P16" => plonk2::p16(cx),
        "P17" => plonk2::p17(cx),
        "P18" => layout::p18(cx),
        "P19" => layout::p19(cx),
        "P20" => plonk2::p20(cx),
        "P21" => plonk2::p21(cx),
        "P22" => plonk2::p22(cx),
        "P23" => plonk2::p23(cx),
        "P24" => assigned::p24(cx),
        "P26" => gutil::p26(cx),
        "P27" => ghash::p27(cx),
        "P28" => ghash::p28(cx),
        "P29" => gecc::p29(cx),
        "P30" => gecc::p30(cx),
        "P31" => gecc::p31(cx),
        "P32" => gsin::p32(cx),
        "P33" => gsin::p33(cx),
        "P25" => gutil::p25(cx),
        _ => return false,
    }
    true
}
