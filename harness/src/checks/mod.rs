pub mod misc;
pub mod read;
pub mod varint;
pub mod script;
pub mod ctx;
pub mod fault;
pub mod files;
pub mod drops;
pub mod conc;
pub mod ub;
pub mod own;
pub mod write;
use crate::cx::Cx;
pub fn run(cx: &mut Cx) -> bool {
    match cx.a.prop.as_str() {
        "C01" => write::c01(cx),
        "C02" => write::c02(cx),
        "C03" => write::c03(cx),
        "C04" => read::c04(cx),
        "C05" | "C23" => ub::c05(cx),
        "C06" => read::c06(cx),
        "C07" => read::c07(cx),
        "C08" => read::c08(cx),
        "C09" => read::c09(cx),
        "C11" => read::c11(cx),
        "C13" => varint::c13(cx),
        "C12" => script::c12(cx),
        "C19" => script::c19(cx),
        "C20" => ctx::c20(cx),
        "C10" => fault::c10(cx),
        "C16" => drops::c16(cx),
        "C24" => files::c24(cx),
        "C14" => read::c14(cx),
        "C15" => read::c15(cx),
        "C21" => conc::c21(cx),
        "C22" => read::c22(cx),
        "C26" => own::c26(cx),
        "C17" | "C18" => composite(cx),
        _ => return false,
    }
    true
}

/// Several checks one after the other over the types of a generated program.
fn composite(cx: &mut Cx) {
    let all: &[(&str, fn(&mut Cx))] = &[("C01", write::c01), ("C02", write::c02), ("C03", write::c03), ("C04", read::c04), ("C08", read::c08), ("C15", read::c15), ("C09", read::c09), ("C11", read::c11), ("C14", read::c14), ("C22", read::c22), ("C06", read::c06)];
    let n = if cx.a.prop == "C17" { 6 } else { all.len() };
    let secs = cx.a.secs;
    cx.prefix = format!("{}|{}|", cx.a.prop, std::env::args().next().unwrap_or_default().rsplit('/').next().unwrap_or(""));
    for (k, (name, f)) in all[..n].iter().enumerate() {
        cx.a.secs = secs * (k as u64 + 1) / n as u64;
        let before = cx.evals;
        f(cx);
        let n = cx.evals - before;
        cx.count(&format!("cases of {name} over generated types"), n);
    }
}
