//! Harnesses: the properties of /verif/properties.jsonl as assertions over the real parser.
#![allow(dead_code, unused_imports)]
mod sym;
mod util;
mod texts;
mod nmea;
mod c01;
mod c02;
mod c14;
mod c16;
mod c22;
mod c26;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c12;
mod c13;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
mod c24;
mod c25;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static HARNESSES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
        mod exports {
            $(#[no_mangle] pub extern "C" fn $f() { super::$m::$f() })*
        }
    };
}
harnesses! {
    c03::c03_illegal,
    c03::c03_illegal_short,
    c03::c03_any,
    c03::c03_utf8,
    c03::c03_type,
    c04::c04_fields,
    c05::c05_fields,
    c06::c06_fields,
    c06::c06_call,
    c06::c06_name,
    c06::c06_dest,
    c07::c07_mid,
    c07::c07_leap,
    c07::c07_newyear,
    c07::c07_century,
    c07::c07_january,
    c08::c08_fields,
    c09::c09_fields,
    c10::c10_fields,
    c10::c10_name,
    c10::c10_call,
    c10::c10_vendor,
    c10::c10_part,
    c10::c11_three,
    c10::c11_four,
    c10::c11_five,
    c10::c11_blank,
    c12::c12_fields,
    c12::c12_name,
    c12::c12_ext,
    c12::c12_both,
    c13::c13_sar,
    c13::c13_utc,
    c13::c13_binary,
    c17::c17_fields,
    c17::c17_empty,
    c17::c17_cut,
    c17::c17_any,
    c17::c17_any4,
    c17::c17_time,
    c18::c18_fields,
    c18::c18_empty,
    c18::c18_cut,
    c18::c18_any,
    c18::c18_any4,
    c18::c18_letters,
    c18::c18_time,
    c18::c18_date,
    c19::c19_gll,
    c19::c19_gll_any,
    c19::c19_vtg,
    c19::c19_vtg_any,
    c19::c19_vtg_any3,
    c19::c19_vtg_faa,
    c20::c20_fields,
    c20::c20_gaps,
    c20::c20_empty,
    c20::c20_any,
    c20::c20_any3,
    c20::c20_modes,
    c20::c20_cut,
    c21::c21_gga,
    c21::c21_rmc,
    c21::c21_gll,
    c21::c21_hemisphere,
    c21::c21_any,
    c21::c21_any_gga,
    c21::c21_any_rmc,
    c21::c21_utf8,
    c23::c23_message,
    c23::c23_rest,
    c25::c25_position,
    c25::c25_classb,
    c25::c25_sar,
    c25::c25_long,
    c25::c25_inquiry,
    c25::c25_binary,
    c25::c25_base,
    c25::c25_voyage,
    c25::c25_name,
    c25::c25_aid,
    c25::c25_ext,
    c25::c25_parta,
    c25::c25_partb,
    c25::c25_tail,
    c25::c25_header,
    c02::c02_vdm,
    c02::c02_fragment,
    c02::c02_rmc,
    c02::c02_gsv,
    c02::c02_vtg,
    c02::c02_length,
    c02::c02_stars,
    c02::c02_pending,
    c02::c02_header,
    c14::c14_position,
    c14::c14_classb,
    c14::c14_sar,
    c14::c14_other,
    c14::c14_voyage,
    c14::c14_aid,
    c14::c14_name,
    c14::c15_three,
    c14::c15_ids,
    c14::c15_four,
    c14::c15_long,
    c14::c15_odd,
    c16::c16_fields,
    c16::c16_empty,
    c16::c16_cut,
    c16::c16_two,
    c16::c16_two4,
    c16::c16_three,
    c16::c16_single,
    c16::c16_long,
    c16::c16_talkers,
    c16::c16_numbers,
    c16::c16_odd,
    c16::c16_big,
    c16::c16_three5,
    c16::c16_two5,
    c22::c22_types,
    c22::c22_kinds,
    c22::c22_unimplemented,
    c22::c22_talker,
    c22::c22_station,
    c22::c22_own24,
    c22::c22_messages,
    c22::c22_headers,
    c22::c22_comma,
    c24::c24_ais,
    c24::c24_same_vessel,
    c24::c24_static,
    c24::c24_gnss,
    c24::c24_malformed,
    c24::c24_gsv,
    c24::c24_fragment,
    c24::c24_header,
    c24::c24_unsupported,
    c24::c24_two,
    c24::c24_illegal,
    c24::c24_three,
    c24::c24_corrupted,
    c01::c01_short,
    c01::c01_header,
    c01::c01_utf8_two,
    c01::c01_cut,
    c01::c01_fields,
    c01::c01_gga,
    c01::c01_rmc,
    c01::c01_gsa,
    c01::c01_gsv,
    c01::c01_vtg,
    c01::c01_vdm,
    c01::c01_time,
    c01::c01_long,
    c01::c01_ais,
    c01::c01_base,
    c01::c01_voyage,
    c01::c01_aid,
    c01::c01_other,
    c01::c01_type,
    c01::c01_oversized,
    c01::c01_eta,
    c01::c01_date,
    c01::c01_fragments,
    c01::c01_counts,
    c01::c01_groups,
    c01::c01_parts,
    c01::c01_aid_ext,
    c01::c01_utf8_gnss,
    c01::c01_utf8_ais,
    c14::c15_many,
    c14::c15_later,
    c10::c11_many,
    c16::c16_many,
    c07::c07_feb28,
    c07::c07_feb28_leap,
    c07::c07_march,
    c07::c07_april,
    c07::c07_february,
    c07::c07_december,
    c07::c07_eight_years,
    c07::c07_end_leap,
    c26::c26_dynamic,
    c26::c26_sar,
    c26::c26_base,
    c26::c26_aid,
    c26::c26_gnss,
    c26::c26_binary,
    c24::c24_later,
    c01::c01_commas,
    c01::c01_texts,
    c02::c02_long,
    c03::c03_long,
    c01::c01_limits,
    c01::c01_wide_texts,
    c17::c17_wide,
    c18::c18_wide,
    c19::c19_vtg_wide,
    c20::c20_wide,
    c24::c24_repeat,
    c24::c24_similar,
    c24::c24_talkers,
    c24::c24_clock,
    c16::c16_dozen,
    c01::c01_lengths,
    c12::c12_start,
    c12::c12_end,
    c12::c12_blanks,
}
