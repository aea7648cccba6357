//! C30: severities from the configuration file.
use crate::symx::*;
use dm::indents::IndentProcessor;
use dm::parser::Parser;
use dm::preprocessor::Preprocessor;
use dm::{Context, DMError, Location, Severity};

/// What may be written for a level, and the severity it stands for: none to disable, or to leave it.
const LEVELS: [(&str, Option<Option<Severity>>); 12] = [
    ("error", Some(Some(Severity::Error))),
    ("warning", Some(Some(Severity::Warning))),
    ("info", Some(Some(Severity::Info))),
    ("hint", Some(Some(Severity::Hint))),
    ("disabled", Some(None)),
    ("unset", None),
    ("errors", Some(Some(Severity::Error))),
    ("warnings", Some(Some(Severity::Warning))),
    ("infos", Some(Some(Severity::Info))),
    ("hints", Some(Some(Severity::Hint))),
    ("false", Some(None)),
    ("off", Some(None)),
];
const SEVERITIES: [Severity; 4] = [Severity::Error, Severity::Warning, Severity::Info, Severity::Hint];

/// One diagnostic under a configuration of two, with a threshold.
pub fn levels() {
    let n = param(0) as u8 + 1;
    let (a, b, threshold) = (choice(n), choice(n), choice(n));
    let mut text = String::new();
    if threshold != 0 {
        text.push_str(&format!("[display]\nerror_level = \"{}\"\n", LEVELS[threshold - 1].0));
    }
    text.push_str("[diagnostics]\n");
    if a != 0 {
        text.push_str(&format!("must_be_pure = \"{}\"\n", LEVELS[a - 1].0));
    }
    if b != 0 {
        text.push_str(&format!("final_var = \"{}\"\n", LEVELS[b - 1].0));
    }
    note(text.as_bytes());
    let mut ctx = Context::default();
    ctx.force_config(&file(text.as_bytes()));
    check("accepted", ctx.errors().is_empty());
    let severity = SEVERITIES[choice(4)];
    let kind = choice(4);
    let error = DMError::new(Location::default(), "problem").set_severity(severity);
    let error = match kind {
        0 => error.with_errortype("must_be_pure"),
        1 => error.with_errortype("final_var"),
        2 => error.with_errortype("private_var"),
        _ => error,
    };
    ctx.register_error(error);
    let level = match kind {
        0 => a,
        1 => b,
        _ => 0,
    };
    let mut want = Some(severity);
    if level != 0 {
        if let Some(s) = LEVELS[level - 1].1 {
            want = s;
        }
    }
    if threshold != 0 {
        match LEVELS[threshold - 1].1 {
            Some(Some(limit)) => want = want.filter(|&w| rank(w) <= rank(limit)),
            Some(None) => want = None,
            None => {}
        }
    }
    let got = ctx.errors();
    check("reported_iff_enabled", got.len() == want.is_some() as usize);
    if let Some(want) = want {
        check("severity", got[0].severity() == want);
        reach("reported");
    } else {
        reach("hidden");
    }
}
fn rank(s: Severity) -> usize {
    SEVERITIES.iter().position(|&x| x == s).unwrap()
}

/// Arbitrary text where a level should be, and arbitrary bytes in the file: a configuration or an error.
pub fn total() {
    let mut ctx = Context::default();
    let n = param(0) as usize;
    let text = if choice(2) == 0 {
        let mut t = b"[diagnostics]\nfinal_var = \"".to_vec();
        t.extend(raw(n));
        t.extend(b"\"\n[display]\nerror_level = \"hint\"\n");
        t
    } else {
        let mut t = b"[diagnostics]\nfinal_var = \"off\"\n".to_vec();
        t.extend(text(n, b"[]=\"\na.#'\\ 1"));
        t.push(b'\n');
        t
    };
    ctx.force_config(&file(&text));
    let n = ctx.errors().len();
    check("one_error_at_most", n <= 1);
    reach(if n == 0 { "accepted" } else { "refused" });
}

/// Programs each raising the diagnostic of that name.
const CAUSES: [(&str, &str); 41] = [
    ("disabled_directive", "/datum/proc/f()\n\tset SpacemanDMM_private_proc = 0\n\treturn 1\n"),
    ("sets_directive_twice", "/datum/proc/f()\n\tset SpacemanDMM_private_proc = 1\n\tset SpacemanDMM_private_proc = 1\n\treturn 1\n"),
    ("invalid_lint_directive_value", "/datum/proc/f()\n\tset SpacemanDMM_private_proc = 5\n\treturn 1\n"),
    ("invalid_set_value", "/datum/proc/f()\n\tset background = 5\n\treturn 1\n"),
    ("unknown_linter_setting", "/datum/proc/f()\n\tset SpacemanDMM_nothing = 1\n\treturn 1\n"),
    ("override_missing_keyword_arg", "/datum/proc/f(a)\n\treturn 1\n/datum/x/f()\n\treturn 1\n/proc/t()\n\tvar/datum/d\n\td.f(a = 1)\n"),
    ("must_not_override", "/datum/proc/f()\n\tset SpacemanDMM_should_not_override = 1\n/datum/x/f()\n\treturn 1\n"),
    ("must_call_parent", "/datum/proc/f()\n\tset SpacemanDMM_should_call_parent = 1\n/datum/x/f()\n\treturn 1\n"),
    ("must_not_call_parent", "/datum/proc/f()\n\tset SpacemanDMM_should_not_call_parent = 1\n/datum/x/f()\n\treturn ..()\n"),
    ("final_var", "/datum/var/SpacemanDMM_final/m = 1\n/datum/x\n\tm = 2\n"),
    ("private_proc", "/datum/proc/f()\n\tset SpacemanDMM_private_proc = 1\n/proc/t()\n\tvar/datum/d\n\td.f()\n"),
    ("protected_proc", "/datum/proc/f()\n\tset SpacemanDMM_protected_proc = 1\n/proc/t()\n\tvar/datum/d\n\td.f()\n"),
    ("private_var", "/datum/var/SpacemanDMM_private/m = 1\n/proc/t()\n\tvar/datum/d\n\td.m = 1\n"),
    ("protected_var", "/datum/var/SpacemanDMM_protected/m = 1\n/proc/t()\n\tvar/datum/d\n\td.m = 1\n"),
    ("must_be_pure", "/proc/t()\n\tset SpacemanDMM_should_be_pure = 1\n\tworld << 1\n"),
    ("must_not_sleep", "/proc/t()\n\tset SpacemanDMM_should_not_sleep = 1\n\tsleep(1)\n"),
    ("redefined_proc", "/datum/proc/f()\n\treturn 1\n/datum/f()\n\treturn 2\n"),
    ("ambiguous_in_lhs", "/proc/t(a, b, c)\n\treturn a + b in c\n"),
    ("ambiguous_not_bitwise", "/proc/t(a, b)\n\treturn !a & b\n"),
    ("no_typehint_implicit_new", "/proc/t()\n\tvar/x = new\n\treturn x\n"),
    ("field_access_static_type", "/proc/t(a)\n\treturn a.b\n"),
    ("proc_call_static_type", "/proc/t(a)\n\treturn a.b()\n"),
    ("proc_has_no_parent", "/proc/t()\n\treturn ..()\n"),
    ("no_operator_overload", "/proc/t()\n\tvar/datum/d\n\td++\n"),
    ("unreachable_code", "/proc/t()\n\treturn 1\n\tt()\n"),
    ("control_condition_static", "/proc/t()\n\tif(1)\n\t\tt()\n"),
    ("if_condition_determinate", "/proc/t()\n\tif(1)\n\t\tt()\n"),
    ("loop_condition_determinate", "/proc/t()\n\tfor(var/i = 1, 1, i++)\n\t\tt()\n"),
    ("improper_index", "/proc/t()\n\tvar/datum/d\n\treturn d[1]\n"),
    ("integer_precision_loss", "/var/x = 4294967297\n"),
    ("var_in_proc_parameter", "/proc/t(var/x)\n\treturn 1\n"),
    ("static_in_proc_parameter", "/proc/t(static/x)\n\treturn 1\n"),
    ("semicolon_in_proc_parameter", "/proc/t(x;)\n\treturn 1\n"),
    ("in_precedes_as", "/proc/t()\n\treturn input(\"a\") in list(1) as num\n"),
    ("tmp_no_effect", "/proc/t()\n\tvar/tmp/x = 1\n\treturn x\n"),
    ("final_no_effect", "/proc/t()\n\tvar/SpacemanDMM_final/x = 1\n\treturn x\n"),
    ("as_local_var", "/proc/t()\n\tvar/x as num\n\treturn x\n"),
    ("duplicate_include", ""),
    ("macro_redefined", "#define A 1\n#define A 2\n"),
    ("macro_undefined_no_definition", "#undef A\n"),
    ("override_precedes_definition", "/datum/x/f()\n\treturn 1\n/datum/x/proc/f()\n\treturn 2\n"),
];

/// Each documented diagnostic follows the level given for it.
pub fn causes() {
    let shift = choice(param(0) as u8);
    let level = |i: usize| LEVELS[(i + shift) % 6];
    let mut text = "[diagnostics]\n".to_owned();
    for (i, (name, _)) in CAUSES.iter().enumerate() {
        text.push_str(&format!("{name} = \"{}\"\n", level(i).0));
    }
    let mut ctx = Context::default();
    ctx.force_config(&file(text.as_bytes()));
    check("accepted", ctx.errors().is_empty());
    let mut picked = 0;
    let tokens = Late {
        ctx: &ctx,
        make: Some(|| {
            picked = choice(CAUSES.len() as u8);
            assume(!CAUSES[picked].1.is_empty());
            note(CAUSES[picked].1.as_bytes());
            CAUSES[picked].1.to_owned()
        }),
        tokens: Vec::new().into_iter(),
    };
    let mut p = Parser::new(&ctx, tokens);
    p.enable_procs();
    let tree = p.parse_object_tree();
    dreamchecker::run(&ctx, &tree);
    let name = CAUSES[picked].0;
    let errors = ctx.errors();
    let mut said = 0;
    for e in errors.iter() {
        let i = CAUSES.iter().position(|c| Some(c.0) == e.errortype());
        if i == Some(picked) {
            said += 1;
        }
        if let Some(i) = i {
            match level(i).1 {
                Some(Some(s)) => check("has_its_severity", e.severity() == s),
                Some(None) => check("disabled", false),
                None => {}
            }
        }
    }
    let disabled = level(picked).1 == Some(None);
    if said == 0 && !disabled {
        note(name.as_bytes());
    }
    check("raised", (said != 0) == !disabled);
    reach(if disabled { "off" } else { "raised" });
}

struct Late<'c, F> {
    ctx: &'c Context,
    make: Option<F>,
    tokens: std::vec::IntoIter<dm::lexer::LocatedToken>,
}
impl<'c, F: FnOnce() -> String> Iterator for Late<'c, F> {
    type Item = dm::lexer::LocatedToken;
    fn next(&mut self) -> Option<dm::lexer::LocatedToken> {
        if let Some(make) = self.make.take() {
            let pp = Preprocessor::from_buffer(self.ctx, "a.dme".into(), make());
            let all: Vec<_> = IndentProcessor::new(self.ctx, pp).collect();
            self.tokens = all.into_iter();
        }
        self.tokens.next()
    }
}
