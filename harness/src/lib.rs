pub mod core_model;
pub mod drive;
pub mod find;
pub mod p_comp;
pub mod p_core;
pub mod p_expr;
pub mod p_flags;
pub mod p_glob;
pub mod p_header;
pub mod p_hvar;
pub mod p_args;
pub mod p_set;
pub mod p_lex;
pub mod p_mail;
pub mod p_misc;
pub mod p_vars;
pub fn run(prop: &str, f: &mut find::Finder) {
    match prop {
        "C01" => p_core::c01(f),
        "C02" => p_core::c02(f),
        "C04" => p_core::c04(f),
        "C05" => p_vars::c05(f),
        "C06" => p_glob::c06(f),
        "C07" => p_glob::c07(f),
        "C08" => p_core::c08(f),
        "C09" => p_glob::c09(f),
        "C10" => p_expr::c10(f),
        "C12" => p_expr::c12(f),
        "C13" => p_expr::c13(f),
        "C03" => p_mail::c03(f),
        "C18" => p_mail::c18(f),
        "C24" => p_mail::c24(f),
        "C25" => p_mail::c25(f),
        "C26" => p_mail::c26(f),
        "C16" => p_header::c16(f),
        "C17" => p_header::c17(f),
        "C19" => p_header::c19(f),
        "C32" => p_header::c32(f),
        "C35" => p_hvar::c35(f),
        "C36" => p_args::c36(f),
        "C37" => p_set::c37(f),
        "C22" => p_flags::c22(f),
        "C14" => p_lex::c14(f),
        "C15" => p_lex::c15(f),
        "C29" => p_lex::c29(f),
        "C27" => p_comp::c27(f),
        "C28" => p_core::c28(f),
        "C30" => p_core::c30(f),
        "C33" => p_vars::c33(f),
        "C11" => p_misc::c11(f),
        "C20" => p_misc::c20(f),
        "C21" => p_misc::c21(f),
        "C23" => p_misc::c23(f),
        "C31" => p_misc::c31(f),
        "C34" => p_misc::c34(f),
        _ => panic!("no finder for {prop}"),
    }
}
