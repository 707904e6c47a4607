//! The reference checked against itself and against published examples; never calls the library.
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use crate::refimpl::*;

fn v(s: &str) -> Vec<char> {
    s.split_whitespace().map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect()
}
/// Examples from UAX #15 and UAX #29.
pub fn quick() -> Result<(), String> {
    let nf = [
        ("212B", "0041 030A", "00C5", "0041 030A", "00C5"),
        ("1E69", "0073 0323 0307", "1E69", "0073 0323 0307", "1E69"),
        ("1E0B 0323", "0064 0323 0307", "1E0D 0307", "0064 0323 0307", "1E0D 0307"),
        ("0071 0307 0323", "0071 0323 0307", "0071 0323 0307", "0071 0323 0307", "0071 0323 0307"),
        ("FB01", "FB01", "FB01", "0066 0069", "0066 0069"),
        ("1E9B 0323", "017F 0323 0307", "1E9B 0323", "0073 0323 0307", "1E69"),
        ("AC01", "1100 1161 11A8", "AC01", "1100 1161 11A8", "AC01"),
        ("0958", "0915 093C", "0915 093C", "0915 093C", "0915 093C"),
        ("0061 0305 0315 0300 05AE 0062", "0061 05AE 0305 0300 0315 0062", "0061 05AE 0305 0300 0315 0062", "0061 05AE 0305 0300 0315 0062", "0061 05AE 0305 0300 0315 0062"),
    ];
    for (s, d, c, kd, kc) in nf {
        for (f, w) in [(Form::Nfd, d), (Form::Nfc, c), (Form::Nfkd, kd), (Form::Nfkc, kc)] {
            if normalize(&v(s), f) != v(w) {
                return Err(format!("{f:?} of {s}"));
            }
        }
    }
    let seg: [(&str, &[usize]); 8] = [
        ("0915 094D 0924", &[3]),
        ("0915 0924", &[1, 1]),
        ("0915 093C 200D 094D 0924", &[5]),
        ("1F469 200D 1F468", &[3]),
        ("0061 200D 1F468", &[2, 1]),
        ("1F1E6 1F1E7 1F1E8 0062", &[2, 1, 1]),
        ("000D 000A 0308", &[2, 1]),
        ("0600 0061 0903", &[3]),
    ];
    for (s, w) in seg {
        if clusters(&v(s)) != w || clusters_decl(&v(s)) != w {
            return Err(format!("clusters of {s}"));
        }
    }
    Ok(())
}
fn both(c: &Text, o: &mut Obs) -> Result<(), String> {
    o.nt(c.0.len() > 1);
    if clusters(&c.0) != clusters_decl(&c.0) {
        return Err(format!("{:?} against {:?}", clusters(&c.0), clusters_decl(&c.0)));
    }
    Ok(())
}
pub fn def(t: Tier) -> CheckDef {
    CheckDef {
        rule: "the two formulations of UAX #29 in the reference agree",
        assumptions: &[],
        sections: vec![
            rnd("structured", t.pick(400_000, 8_000_000), || seg_text(4, 40), both),
            rnd("mixed", t.pick(100_000, 2_000_000), || mixed_text(4, 40), both),
            exh("composition pairs restore", pools().comp_pairs.len() as u64, true, true, |i| Some(Cp { cp: i as u32 }), |c: &Cp, o| {
                o.nt(true);
                let (a, b) = pools().comp_pairs[c.cp as usize];
                let p = ucd().compose_pair(a as u32, b as u32).ok_or("no pair")?;
                if ucd().dm_of(p) != [a as u32, b as u32] {
                    return Err("pair".into());
                }
                Ok(())
            }),
        ],
    }
}
