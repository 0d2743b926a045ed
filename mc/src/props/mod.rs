use crate::run::Run;
mod client;
mod cross;
mod limit;
mod logs;
mod pool;
mod req;
mod resp;
mod routes;
mod server;
mod workers;
pub mod util;

pub fn run(prop: &str, r: &mut Run) -> bool {
    match prop {
        "P01" => pool::p01(r),
        "P02" => pool::p02(r),
        "P03" => pool::p03(r),
        "P04" => pool::p04(r),
        "P05" => routes::p05(r),
        "P06" => routes::p06(r),
        "P07" => routes::p07(r),
        "P08" => limit::p08(r),
        "P09" => server::p09(r),
        "P10" => server::p10(r),
        "P11" => server::p11(r),
        "P12" => server::p12(r),
        "P13" => server::p13(r),
        "P14" => server::p14(r),
        "P15" => resp::p15(r),
        "P16" => resp::p16(r),
        "P21" => resp::p21(r),
        "P23" => client::p23(r),
        "P24" => client::p24(r),
        "P25" => client::p25(r),
        "P26" => util::p26(r),
        "P27" => util::p27(r),
        "P28" => util::p28(r),
        "P29" => logs::p29(r),
        "P32" => util::p32(r),
        "P30" => util::p30(r),
        "P17" => req::p17(r),
        "P18" => req::p18(r),
        "P19" => req::p19(r),
        "P20" => req::p20(r),
        "P22" => req::p22(r),
        "P31" => req::p31(r),
        "P33" => req::p33(r),
        "P34" => workers::p34(r),
        "P35" => workers::p35(r),
        "P36" => workers::p36(r),
        _ => return false,
    }
    true
}
