"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }  # fmt: skip


PROPS = [
    P("C01", "Message shorthand prints what the equivalent handwritten write! prints",
      "For every error message whose placeholders refer to fields by name or position, with any format traits and specs, in structs and enum "
      "variants of any shape, Display prints byte for byte what a handwritten `write!` of the same string with the fields as arguments prints. "
      "That includes escaped braces, fill characters of any kind, raw and non-ASCII names, repeated references, fields alongside explicit named "
      "arguments, and every value the fields may take.",
      ["inputs", "programs"],
      "all definitions (shape, field names, field types) x all messages over their fields x all field values",
      "test_display.rs samples some 60 fixed messages; the product of fill, sign, width, precision, trait, name shape, escape and repetition is "
      "unbounded, and the rewriting of the string is positional text processing that is right for the sampled strings and wrong for others.",
      ["impl/src/fmt.rs", "impl/src/expand.rs", "impl/src/attr.rs", "impl/src/unraw.rs", "src/display.rs", "src/var.rs"],
      [("expand_shorthand rewrites placeholders into named arguments", "impl/src/fmt.rs"), ("binding of fields by pattern", "impl/src/expand.rs fields_pat")],
      ["output of Display"]),
    P("C02", "The message language is exactly the format-string language of rustc",
      "A format string over fields is accepted by the derive if and only if rustc accepts the same string over variables of those names and types, and then prints the same. "
      "An invalid string is reported as a compile error, never as a panic or a silently different message.",
      ["inputs"],
      "all strings over the format-string alphabet (braces, colons, fills, signs, digits, dollars, names, whitespace, any Unicode), applied to a given set of fields",
      "The tests hold a handful of valid strings and three invalid ones; which of the infinitely many strings the ad-hoc scanner treats differently from rustc's parser "
      "cannot be sampled by hand.",
      ["impl/src/fmt.rs"],
      [("hand-written scan for braces, names and the trait at the end of the spec", "impl/src/fmt.rs expand_shorthand, take_int, take_ident, fill_len")],
      ["whether the program compiles", "output of Display"]),
    P("C03", "Extra arguments with .field shorthand evaluate like write! arguments on self",
      "For every list of extra positional or named arguments, `.field` and `.0` at the start of an expression mean that field of the value, everywhere in the expression where a "
      "new operand begins, and each argument is otherwise evaluated exactly as written, in order, once. Named arguments take precedence over fields of the same name, and the "
      "message prints what the equivalent handwritten `write!` prints.",
      ["inputs", "programs"],
      "all argument lists over the expression grammar (calls, closures, blocks, matches, casts, generics, operators, macros) with shorthand in any operand position",
      "Tests have about fifteen expressions; where an operand begins is decided by a hand-written token scanner and by whether syn's `full` feature is on, "
      "so any operator or bracket combination not sampled may be split wrongly.",
      ["impl/src/fmt.rs", "impl/src/scan_expr.rs", "impl/src/attr.rs"],
      [("scan_expr finds the end of an argument without a full expression parser", "impl/src/scan_expr.rs"), ("parse_token_expr rewrites .field", "impl/src/attr.rs"),
       ("explicit_named_args", "impl/src/fmt.rs")],
      ["output of Display", "evaluation order recorded by the arguments"]),
    P("C04", "Display reports formatting faults and treats outer formatters as write! does",
      "If the sink or a field's own impl fails at any point while a message is printed, Display returns the error, with exactly the output up to that point having been written, and without going on. "
      "Width, precision, fill and flags of the outer formatter are ignored by a message and passed on unchanged by a transparent error.",
      ["fault_sequences", "inputs"],
      "all messages x all positions at which the sink or a field fails x all outer format specs",
      "No test uses a failing sink or a failing field, and outer specs are sampled only twice; the failing position ranges over every prefix of the output.",
      ["impl/src/expand.rs", "impl/src/fmt.rs", "impl/src/attr.rs", "src/display.rs"],
      [("write! / write_str / forwarding chosen per variant", "impl/src/attr.rs impl ToTokens for Display"), ("AsDisplay for paths", "src/display.rs")],
      ["fmt::Result", "bytes written before the failure"]),
    P("C05", "Enum-level messages fill in, variants override, fmt = path delegates",
      "In every enum, a variant with its own error attribute displays by that alone, and a variant without one displays by the enum-level attribute applied to that variant's fields. "
      "`error(fmt = path)` calls the path exactly once with references to the fields in declaration order and the formatter, and returns its result.",
      ["programs", "inputs"],
      "all enums (any number and shape of variants) x all assignments of own / inherited messages and paths x all values",
      "The tests have four small enums with such attributes; which of the per-variant decisions interact (bindings, bounds, unit variants, the single-arm shortcut) "
      "depends on combinations.",
      ["impl/src/expand.rs", "impl/src/ast.rs", "impl/src/attr.rs", "impl/src/valid.rs"],
      [("inheritance of the enum-level attribute into variants", "impl/src/ast.rs Enum::from_syn"), ("fmt = path expansion", "impl/src/attr.rs, impl/src/expand.rs")],
      ["output of Display", "calls received by the path"]),
    P("C06", "source() is the marked field, else the field named source, else None",
      "For every struct and variant, `source()` returns the field marked `#[source]` or `#[from]`, or else the field named `source`, and nothing else, as that very object: "
      "same address and same concrete type, through Option, Box, references and trait objects. It is None when the field is a None and for variants without one, and never allocates or unwraps further.",
      ["programs", "inputs"],
      "all definitions x all wrappers of the source type x all values (Some / None / nested)",
      "test_source.rs covers five shapes; field order, attributes on others, raw identifiers, wrappers and several variants combine freely, and identity of the returned object is not asserted.",
      ["impl/src/prop.rs", "impl/src/expand.rs", "src/aserror.rs"],
      [("source_field selection", "impl/src/prop.rs"), ("AsDynError", "src/aserror.rs"), ("source method generation", "impl/src/expand.rs")],
      ["address, type and messages along the source chain"]),
    P("C07", "A transparent error displays, sources and provides as its only field does",
      "A `#[error(transparent)]` struct or variant prints through its only field under whatever format spec it is given, and its `source()` is the field's own `source()`, skipping the field itself. "
      "A chain of transparent layers is indistinguishable in message and sources from its innermost error.",
      ["programs", "inputs", "histories"],
      "all shapes (struct, variant, enum-level), field types (concrete, generic, boxed, dyn), depth of nesting, outer specs",
      "test_transparent.rs has six shapes with one value each; specs, depths and dynamically typed fields are unbounded.",
      ["impl/src/expand.rs", "impl/src/attr.rs", "impl/src/valid.rs", "src/aserror.rs"],
      [("transparent branch of source and Display", "impl/src/expand.rs")],
      ["output of Display", "source chain"]),
    P("C08", "From exists for exactly the #[from] fields and builds the right value",
      "There is an `impl From<T>` for exactly the fields marked `#[from]`, with T the field's type without its Option, and no other conversion. Converting builds the variant with that field, "
      "holding the very value that was given, `Some` if it is an Option, with any Backtrace captured and every other variant untouched; `?` therefore reaches the right variant.",
      ["programs", "inputs"],
      "all definitions with any number of #[from] fields, generics, boxes, options, optional backtraces, and all values",
      "test_from.rs checks that four types compile; the absence of impls and the identity of the value are not asserted anywhere.",
      ["impl/src/expand.rs", "impl/src/prop.rs", "impl/src/valid.rs", "impl/src/generics.rs"],
      [("from_initializer and type_parameter_of_option", "impl/src/expand.rs")],
      ["existence of the impl", "variant and value after conversion", "drop and move of the value"]),
    P("C09", "provide() answers with the backtrace of the error or of its source",
      "Where the compiler has the API, requesting a Backtrace yields the error's own Backtrace field (given or captured), or that of a source marked `#[backtrace]` or behind a transparent error; "
      "other requests reach exactly those sources that are marked. No definition without such fields answers any request, and asking never changes the other behaviour of the error.",
      ["programs", "inputs", "configurations"],
      "all definitions with backtrace fields (plain, Option, Arc-like), sources marked or not, transparent layers, nested to any depth, all requested types",
      "test_backtrace.rs covers a dozen fixed types on nightly only, so the stable suite does not run it at all.",
      ["impl/src/expand.rs", "impl/src/prop.rs", "src/provide.rs"],
      [("provide method generation for structs and enums", "impl/src/expand.rs"), ("ThiserrorProvide", "src/provide.rs"), ("backtrace_field", "impl/src/prop.rs")],
      ["error::request_ref results"]),
    P("C10", "Generic errors need exactly the bounds their messages and sources use",
      "For a generic type, `Display` holds for exactly those type arguments whose fields implement the traits the placeholders use, and `Error` for exactly those for which additionally Self is Debug "
      "and the sources are errors. Unused parameters, and parameters hidden in types that need no bound, stay unconstrained; existing where-clauses, defaults, lifetimes and const parameters are kept.",
      ["programs", "inputs"],
      "all generic definitions (parameters, field types mentioning them, bounds, where-clauses) x messages x type arguments having or lacking each trait",
      "test_generics.rs checks that some fifteen definitions compile with good arguments; that bad arguments are refused, and none needlessly, is not tested.",
      ["impl/src/generics.rs", "impl/src/expand.rs", "impl/src/fmt.rs"],
      [("InferredBounds, ParamsInScope", "impl/src/generics.rs"), ("implied_bounds from format traits", "impl/src/fmt.rs")],
      ["which trait impls hold for which type arguments"]),
    P("C11", "Definitions are accepted exactly if the attribute rules hold",
      "The derive accepts a definition if and only if its attributes follow the documented rules: each kind at most once and in a place where it means something, a message for every variant or none, "
      "`from` only beside a backtrace, transparent only with one field, and so on. A rejected definition yields a diagnostic of its own, located in the definition, and the type still has Display and Error, "
      "so that its uses cause no further errors.",
      ["programs"],
      "all placements and multiplicities of all attributes on containers, variants and fields, over all shapes",
      "tests/ui has 25 fixed rejected inputs (and is not run on this toolchain as part of the stable list); combinations of attributes are not sampled.",
      ["impl/src/valid.rs", "impl/src/attr.rs", "impl/src/fallback.rs", "impl/src/ast.rs", "impl/src/prop.rs"],
      [("validate", "impl/src/valid.rs"), ("duplicate and placement checks while parsing", "impl/src/attr.rs"), ("fallback impls", "impl/src/fallback.rs")],
      ["accepted or not", "number, place and origin of the errors"]),
    P("C12", "No input makes the derive panic; arguments are accepted iff write! does",
      "Whatever tokens stand in the attributes, and whatever the definition looks like, the derive produces code or a compile error and never panics, overflows its stack or hangs. "
      "A list of extra arguments without shorthand is accepted exactly if `write!` accepts the same tokens.",
      ["inputs"],
      "all token sequences in attributes; all syntactically possible struct, enum and union definitions",
      "A robustness claim over all token streams; the tests feed well-formed ones.",
      ["impl/src/attr.rs", "impl/src/fmt.rs", "impl/src/scan_expr.rs", "impl/src/valid.rs", "impl/src/generics.rs", "impl/src/prop.rs", "impl/src/unraw.rs"],
      [("token scanners with unwrap() at their edges", "impl/src/fmt.rs, impl/src/attr.rs"), ("errors returned as syn::Error", "impl/src/lib.rs, impl/src/expand.rs")],
      ["whether the compiler reports a panic of the derive", "whether the program compiles"]),
    P("C13", "Paths print as by display(), whatever they hold; others are untouched",
      "A plain `{}` of a field of type Path, PathBuf or a reference, Box, Rc, Arc or such to one prints what `Path::display` prints, for every path, valid UTF-8 or not. "
      "A field of any other type, sized or not, prints by its own Display even where it derefs to a path, and `{:?}` and `{:p}` print what they print for the field itself.",
      ["inputs", "programs"],
      "all byte strings as paths x all smart-pointer nestings x unsized and user-defined types x placements in messages",
      "test_path.rs has four types with one ASCII path.",
      ["src/display.rs", "src/var.rs", "impl/src/fmt.rs"],
      [("AsDisplay for &T, Path, PathBuf", "src/display.rs"), ("Var for {:p}", "src/var.rs"), ("bonus display", "impl/src/fmt.rs")],
      ["output of Display, byte for byte"]),
    P("C14", "Every feature and compiler configuration gives the same behaviour",
      "The same definition compiles and behaves the same with and without the `std` feature, with and without syn's `full` feature enabled elsewhere in the build, on stable and nightly compilers and in every "
      "edition, and is accepted or rejected alike in all of them. Without `std`, the expansion names nothing from std or alloc and works in a crate that is `no_std`.",
      ["configurations", "programs"],
      "all definitions that mean something in all configurations x {std, no_std} x {syn full, not} x {editions} x {toolchains}",
      "The suite is run in one configuration; tests/no-std has one fixed file.",
      ["Cargo.toml", "build.rs", "src/lib.rs", "impl/src/expand.rs", "src/aserror.rs", "src/display.rs", "impl/src/fmt.rs"],
      [("cfg(feature std) and core:: paths", "src/lib.rs"), ("::core:: and ::thiserror::__private:: paths in expansions", "impl/src/expand.rs"),
       ("is_syn_full branch", "impl/src/fmt.rs")],
      ["output of Display and source in each configuration"]),
    P("C15", "The expansion is hygienic: names in scope and macro use do not change it",
      "The derive gives the same behaviour wherever the definition stands: in modules that shadow prelude names, traits, macros and crates, without an implicit prelude, inside functions, and inside macro_rules "
      "with any fragment kinds for names, types and literals, for fields of any legal name, raw ones included.",
      ["programs"],
      "all sets of shadowing items x all definitions x all ways to produce the definition by a macro",
      "test_lints.rs, test_expr.rs and a few others sample some of these contexts, one at a time.",
      ["impl/src/expand.rs", "impl/src/fmt.rs", "impl/src/attr.rs", "impl/src/unraw.rs", "impl/src/prop.rs"],
      [("absolute paths and spans resolved at the field", "impl/src/expand.rs"), ("IdentUnraw, MemberUnraw", "impl/src/unraw.rs")],
      ["whether the program compiles", "behaviour of the type"]),
    P("C16", "The expansion triggers no lints that the user's own code would not",
      "Deriving Error adds no warning from rustc or clippy, at any level of strictness that ordinary handwritten impls pass, including for deprecated types, unused fields and bindings, shadowing and qualified paths. "
      "A message that displays itself endlessly through `{self}` is reported as unconditional recursion.",
      ["programs"],
      "all definitions x all rustc lint groups and clippy groups at deny",
      "test_lints.rs and test_deprecated.rs hold a few known past cases.",
      ["impl/src/expand.rs", "impl/src/fmt.rs", "impl/src/lib.rs"],
      [("allow attributes on generated impls", "impl/src/expand.rs"), ("call_site/mixed_site spans", "impl/src/expand.rs"), ("infinite_recursive", "impl/src/fmt.rs, impl/src/expand.rs")],
      ["diagnostics of rustc and clippy"]),
    P("C17", "The expansion is a function of the definition alone",
      "Expanding the same definition any number of times, in any process, beside any other definitions and in any order, gives the same tokens. Consistent renaming of fields, variants and types changes nothing but the names.",
      ["programs", "histories"],
      "all definitions x all contexts, orders and repetitions",
      "No test expands twice; hash-map iteration order differs between processes, so one run cannot show it.",
      ["impl/src/fmt.rs", "impl/src/generics.rs", "impl/src/expand.rs"],
      [("HashMap for members, BTreeSet for what is emitted", "impl/src/fmt.rs"), ("Map plus order vector", "impl/src/generics.rs")],
      ["text of the expanded crate"]),
    P("C18", "Builds never depend on unstable features by accident",
      "With any supported toolchain, RUSTC_BOOTSTRAP setting, feature set, wrapper and target directory, the crate builds, uses the provide API exactly if the compiler offers it, and rebuilds when that changes. "
      "Definitions with a Backtrace field work where it is available and get a clear error where it is not.",
      ["configurations"],
      "all combinations of toolchain, RUSTC_BOOTSTRAP (unset, 0, 1, crate lists), features, RUSTC_WRAPPER, RUSTFLAGS, and sequences of such builds in one target directory",
      "The suite runs in one environment; the build script's decision is a function of the environment.",
      ["build.rs", "build/probe.rs", "src/lib.rs", "impl/src/expand.rs"],
      [("probe of the compiler", "build.rs compile_probe"), ("rerun-if directives", "build.rs")],
      ["cfgs emitted by the build script", "result of the build", "behaviour of provide"]),
    P("C19", "Errors stay consistent through any history of wrapping and conversion",
      "Through any sequence of converting with `?`, wrapping, boxing, downcasting, taking apart, and passing to error reporters, the chain of messages, sources and identities reported from the outermost error equals the "
      "history of its construction, and no wrapped value is lost, copied or dropped twice.",
      ["histories", "inputs"],
      "all sequences of operations over a universe of derived error types",
      "Tests build each error in one step; chains built by longer histories are not tested.",
      ["impl/src/expand.rs", "src/aserror.rs", "src/display.rs", "impl/src/prop.rs"],
      [("From, source, transparent, provide taken together", "impl/src/expand.rs")],
      ["messages along the chain", "type ids and addresses", "drop counts"]),
    P("C20", "A type error in a definition is reported at the part that is wrong",
      "When a definition follows the attribute rules but does not type-check, every compile error points into the part of the definition that is responsible: the message literal for a placeholder whose field lacks "
      "the format trait, the argument for a wrong argument, the path of `fmt = path`, the `#[source]` or `#[from]` attribute (or else the field's name) for a source that is no error, the word `transparent` for a "
      "transparent field that is no error, the `#[from]` of a conversion that conflicts with another, the name of the type if it lacks Debug or a message. Each wrong part is reported, and no right one is.",
      ["programs"],
      "all definitions with any number of such mistakes in any of their parts, next to right parts, in structs and enums of any shape, with and without syn's full feature and std",
      "The UI tests pin the rendered error of some twenty definitions with one mistake each; each quoted fragment of the expansion carries its own span, and which one the compiler blames depends on the shape of the definition.",
      ["impl/src/expand.rs", "impl/src/fmt.rs", "impl/src/attr.rs", "impl/src/prop.rs"],
      [("quote_spanned! around source, transparent and From", "impl/src/expand.rs"), ("source_span", "impl/src/prop.rs"), ("spans of rewritten names in messages", "impl/src/fmt.rs")],
      ["primary spans of the compiler's errors"]),
    P("C21", "The derive adds impls of Error, Display and From, and nothing else",
      "Switching between the derive and handwritten impls is not a breaking change, and thiserror does not appear in the public API: for every accepted definition the derive adds one impl of Error, one impl of Display exactly "
      "if the definition has messages, and one From impl per #[from], with the methods and parameters a handwritten impl would have; no other items, inherent methods or trait impls; the other methods of Error (description, cause) "
      "keep their defaults; the layout is unchanged, and the user's own impls and methods beside the derive stay legal and keep being chosen.",
      ["programs", "inputs"],
      "all accepted definitions, with any set of other impls and inherent methods beside them, on every installed compiler, with and without syn's full feature",
      "A test checks what is there; that nothing else is there has to be asked over all traits, items and shapes of definition.",
      ["impl/src/expand.rs", "impl/src/lib.rs", "src/lib.rs"],
      [("impl blocks of the expansion", "impl/src/expand.rs impl_struct, impl_enum"), ("re-exports", "src/lib.rs")],
      ["trait impls by autoref probes", "items and impls in rustdoc JSON", "results of description, cause, inherent calls", "size and alignment"]),
]

TECH = "property-based testing: Hypothesis-generated "
CHECKS = {
    "C01": (TECH + "definitions, messages and values; differential against a handwritten write! compiled beside the derive", "Differential testing of rendered output on generated programs."),
    "C02": (TECH + "format strings; differential against rustc's format_args!, both acceptance and output", "Acceptance is compared string by string; a character outside the generator's alphabet classes is not covered."),
    "C03": (TECH + "expression grammars with field shorthand; differential against write! on self with recorded evaluation order, with and without syn full", "Shorthand only in operand positions that the documentation grants."),
    "C04": (TECH + "messages with injected faults at every byte/write of the sink and in every field impl; oracle is the handwritten write!", "Every fault position of each generated message is tried."),
    "C05": (TECH + "enums; differential against handwritten match-based Display, with call recording for paths", "Generated enums up to 6 variants."),
    "C06": (TECH + "definitions; source() compared with a model by address, type and chain", "Identity is compared by address and type id."),
    "C07": (TECH + "transparent towers; differential against the innermost error under generated specs", "Towers up to depth 5."),
    "C08": (TECH + "definitions; presence/absence of From by autoref probes, value identity and drop accounting against a model", "Presence is probed for the types of the case and some others."),
    "C09": (TECH + "definitions on the nightly whose provide API the probe accepts; requests compared with a model", "Runs on nightly-2025-05-01, the only installed compiler that passes the build probe."),
    "C10": (TECH + "generic definitions; truth table of trait impls over marker type arguments against a bound model", "Type arguments are marker types that have or lack each trait."),
    "C11": (TECH + "attribute placements; accept/reject against a reference model of the rules, with attribution of diagnostics", "The model states the rules independently of the code; messages are not compared."),
    "C12": (TECH + "token soups and mutated grammars; no-panic oracle and differential against write! acceptance", "Fuzzes the macro through rustc; token trees only, as the compiler never hands over anything else."),
    "C13": (TECH + "byte-string paths, pointer nestings and unsized types; differential against Path::display", "Unix paths only."),
    "C14": (TECH + "definitions, each compiled in every configuration; differential between configurations and against the handwritten impls", "Toolchains and editions installed here."),
    "C15": (TECH + "scopes and macro_rules wrappers around definitions; metamorphic relation to the same definition in a clean scope", "Known findings: methods with the names of doc-hidden trait methods; constants, unit structs and paths with the names of bindings; .field arguments from another macro than the field."),
    "C16": (TECH + "definitions under deny-everything lints; metamorphic relation to handwritten impls, rustc and clippy", "Lints of the installed compilers."),
    "C17": (TECH + "definitions expanded repeatedly, permuted and renamed; equality of expansions", "Needs a nightly for -Zunpretty=expanded."),
    "C18": ("property-based testing: stateful Hypothesis-generated sequences of build configurations against a model of what the compiler offers", "Toolchains installed here."),
    "C20": (TECH + "definitions with type errors placed in known parts; primary spans of rustc's errors compared with the places of the mistakes", "Mistakes that mask each other within one message count as reported if one of them is."),
    "C21": (TECH + "definitions with other impls and methods beside them; trait probes, layout, calls and rustdoc items compared with a handwritten twin", "Absence of impls is decided for the listed traits by probes and for all others by rustdoc's JSON."),
    "C19": ("stateful property-based testing: Hypothesis-generated operation sequences interpreted in one program against a reference model", "Universe of derived types is generated anew per batch."),
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    have = [p["id"] for p in PROPS if os.path.exists(os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py"))]
    m = {
        "version": 1,
        "setup_cmd": "python3-vt -m pbt.build",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"python3-vt -m pbt.main {i}",
                "thorough_cmd": f"python3-vt -m pbt.main {i} --tier thorough",
                "technique": CHECKS[i][0],
                "level": "exploration",
                "level_note": CHECKS[i][1],
            }
            for i in have
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in have
        ],
    }  # fmt: skip
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
