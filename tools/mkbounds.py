#!/usr/bin/env python3
"""Writes harness/bounds.json: what each check explores and what it leaves out."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def count(n):
    p = f"{V}/harness/r/src/gen/{n}.rs"
    return int(re.search(r"COUNT: usize = (\d+)", open(p).read()).group(1)) if os.path.exists(p) else 0
def grid(n, k, deep):
    return (f"{count(n)} derived structs (settings concrete, generated by tools/genr.py); for each, every history of up to {k} "
            f"symbolically chosen calls (thorough: one more) with all argument values symbolic (u8/u16/u32/u64 scalars over their full range, Option/Vec "
            f"shapes up to 2 elements, ASCII strings of 2 bytes), then build (twice when the builder is not consumed). h_step: the same structs starting from an "
            f"arbitrary builder state (every slot set or not, symbolic contents) followed by one symbolic call (thorough: two) and build; a builder has no state but "
            f"its slots, so this covers histories of any length. h_mix/h_mix_step: {count('mix' + n)} more structs with every option drawn at random "
            f"(fixed seed), same exploration. {deep}Outside: longer collections, settings outside the grids (the macro-side entries, where present, "
            f"show that the generated items depend on no further option: all pairs, thorough all triples with options at both levels).")
M = ("Each explored expansion runs the compiled derive_builder_core (with darling, syn, quote, proc-macro2) from attribute tokens to output tokens. ")
B = {
 "C01": grid("c01", "2 to 4", "Also a generic struct and a method-chaining struct. "),
 "C02": grid("c02", "2 to 4", "Also a 6-field struct with custom error type and one with 8 required fields where the set subset is symbolic. "),
 "C03": grid("c03", "2 or 3", "h_eval: a struct whose defaults count their evaluations and may fail; which fields are set, and whether the default fails, is symbolic. "),
 "C04": grid("c04", "3", "After each call all builder slots are compared with the model; h_pair: two clones evolving under 3 (4) symbolic operations; h_stages: up to 3 builds with calls in between. "),
 "C05": grid("c05", "2", "Conversions are counted by the argument types. Also into/strip mixed on three fields, and a generic struct. "),
 "C06": grid("c06", "2 or 3", "Conversion success is decided by the symbolic argument. "),
 "C07": grid("c07", "3 or 4", "Collections: Vec and a Copy collection recording where it was created. "),
 "C08": "12 structs (3 patterns x generated/custom error x default kinds), up to 3 (4) symbolic setter calls and builds, symbolic validator verdict and field values; every evaluation is logged and the log compared. h_text: all validator messages of up to 4 symbolic bytes. h_generic: a generic builder. Outside: longer histories.",
 "C09": "every missing field of three structs; all messages of up to 8 ASCII bytes and of up to 3 (4) UTF-8 characters of any width, symbolic; generated, custom and validation-free errors. Display goes through core::fmt. Outside: longer messages.",
 "C10": grid("c10", "2 or 3", "h_custom: hand-written setters on custom-setter fields; h_phantom: skipped fields of non-Clone, non-Debug types. "),
 "C11": grid("c11", "2 or 3", "All builder slots are compared after each call. h_blocks: build blocks that count evaluations and fail with `?`. "),
 "C12": "27 structs covering constructor name x custom_constructor x pattern x field kind, all later values symbolic; on the macro side all combinations of custom_constructor / build_fn name / create_empty / derive options (504 expansions) next to every struct-level option (thorough).",
 "C13": M + "h_one: one field, one inheritable option at struct level x at field level, next to every other setter option; h_pairs: all pairs of inheritable options at both levels (thorough: full visibilities, and triples); h_two: two fields with separate overrides. The expansion must equal, token for token, the expansion with the effective options written on the field.",
 "C14": M + "Identifiers of field, struct, setter, prefix, builder, build method, create-empty and each with up to 3 symbolic characters each (a fixed first letter where keywords must be avoided); every raw identifier of 2 (3) letters as a field name; all combinations of presence of the naming options; all names under all pairs of options. Outside: longer identifiers.",
 "C15": M + "6 places x all ways of writing public/private/vis (28 incl. conflicts), a second place set as well; all five places jointly with 3 (4) values each and 4 (5) struct visibilities; the own visibility of the struct and of each field varied; all items under all pairs of options with three further sets of visibilities; one symbolic path segment in vis = \"pub(in ..)\".",
 "C16": M + "Documented spellings with `<T>`, `::<T>` and `<T,>`. Paths of 1 to 3 segments with or without leading ::, each segment a fully symbolic identifier of the length of the documented segment (all names of lengths 3-6 are covered for each position); 12 shapes of T; 20 non-Option types. Outside: Option paths with zero or several type arguments, identifiers longer than 8.",
 "C17": M + "h_company: all kinds of attributes at once on three fields and the struct, under all pairs of options. h_shim: a struct using every helper attribute through the real proc-macro crate. Up to 2 (3) attributes on a field and on the struct, from 12 kinds of which the names of unknown attributes are symbolic letters; field attributes around and between several builder attributes; two fields.",
 "C18": M + "h_keys: every option key of 2 to 12 (20) symbolic letters/underscores at six levels; h_patterns: every pattern string of up to 10 symbolic characters; all pairs (thorough: triples) of 33 struct-level and 30 field-level documented options; all single contradictions (all clashes of public/private/vis in five places, with every visibility) in the company of each other option; all item kinds; malformed contents of builder_*_attr.",
 "C19": M + "Every sequence of 2 (3) items from a soup of 16 token groups as an attribute; every option with 32 kinds of values; every string option with 1 (2) symbolic bytes over a 14-symbol alphabet; raw identifiers in every naming position; all pairs of field options on one of two fields; 23 items of other shapes. A panic on any path is a violation. Outside: what rustc itself rejects before the derive runs.",
 "C20": M + "All unordered pairs of 31 field configurations in both orders, every field configuration under every struct-level option, 5-field structs, repeated expansion.",
 "C21": M + "All pairs struct option x field option, struct x struct, field x field, 4 kinds of crate roots with symbolic segments. h_scope: structs derived in a module that shadows names of core, run.",
 "C22": M + "Up to 2 (3) generic parameters of 6 (all) kinds (lifetimes with bounds, types with up to 2 bounds, ?Sized, consts, with and without defaults), four parameters under all pairs of options, where clauses, all pattern combinations at both levels of up to 2 (3) fields, derive lists.",
 "C23": M + "derive_builder_core compiled three times (no alloc, alloc only, std): all combinations of error / validation_error / validate / no_std / pattern / defaults, next to every other option.",
 "C25": M + "h_single: each of 60+ documented options in each of its spellings. h_pairs: all pairs of options of one level, in both orders, in one list or in several attributes (with an empty attribute and other attributes in between), with and without trailing commas, and in each spelling (a value may also be a macro_rules fragment). h_long: lists of five to eight options with symbolic names in symbolic rotations. Thorough: triples.",
 "C26": "harness/ns, a no_std crate deriving structs with required, defaulted, skipped, custom-typed, each and try fields in all patterns, compiled with derive_builder's features std, alloc and none; all values and subsets of set fields symbolic; validator texts of up to 4 symbolic bytes. The run-time grids of C02, C03, C07, C08, C11 and C12 again with alloc only. Generated code of all pairs of options with derive_builder_core built without features. Outside: other targets than x86-64 linux.",
 "C27": M + "35 forms of types, 44 of expressions and blocks, 10 of paths, each with symbolic identifiers inside, in every place they can be written and in every pattern, compared with the expansion for a placeholder; seven forms of generics with every option. Outside: forms of syntax not among these.",
 "C24": M + "All combinations of build_fn options (skip, name, error, validation_error, validate, private), patterns, no_std, generics and builder names, next to every other option.",
}
MM = {"h_setter": "the plain setter", "h_try": "the fallible setter", "h_each": "the each setter", "h_init": "every field initializer (build and empty builder)", "h_build": "the rest of the build method", "h_error": "the generated error type with its impls"}
PP = {"h_types": "field types (35 forms)", "h_exprs": "default and build expressions (44 forms)", "h_paths": "validator and error paths (10 forms)", "h_generics": "the generics of the struct (7 forms)", "h_fragments": "field types and expressions that arrive as macro_rules fragments (each stays one piece)", "h_texts": "the text of quoted default and build expressions (26 layouts, with comments, trailing semicolons, braces in literals)"}
runs = json.load(open(f"{V}/harness/runs.json"))
for c, rs in runs.items():
    es = [r[2] for r in rs if r[1] == "m" and not r[2].endswith("_deep")]
    a = [MM[e] for e in es if e in MM]
    n = [e[2:-5] for e in es if e.endswith("_name")]
    if a:
        B[c] += " Macro side: under all pairs of documented options (33 struct-level, 30 field-level values; thorough: triples using both levels), " + ", ".join(a) + " of a struct with three fields equals that of a one-field struct with just the documented relevant options in effective form."
    p_ = [PP[r[2]] for r in rs if r[1] == "p" and r[2] in PP]
    if p_ and c != "C27":
        B[c] += " The expansion is parametric in " + " and ".join(p_) + " (see C27)."
    if ["g", "c20", "h_wide"] in [r[:3] for r in rs]:
        B[c] += " Structs of 6 to 17 (24) fields, of which one at any position has other options: the code of each field is that of a small struct."
    if "h_unicode" in [r[2] for r in rs]:
        B[c] += " h_unicode: the same for names of 1 to 3 (6) letters outside ASCII, one of them symbolic."
    if "h_sizes" in [r[2] for r in rs]:
        B[c] += " h_sizes: structs of 0, 1 and 4 (0 to 5) fields of any kind, under every pair (thorough: all) of struct-level options: everything but the fields' own items equals that of a struct with one plain field."
    if n:
        B[c] += " For any " + "/".join(n) + " name of 1, 2, 3, 6 and 9 (1 to 12) symbolic characters the expansion equals that for another name, up to renaming."
B["assumptions"] = [
 "rustc 1.88.0 / LLVM compile /repo and the harness to LLVM IR at opt-level 1 and the native replay binary from the same IR; llsym's reading of that IR is cross-checked by replaying every explored path natively",
 "z3 is sound",
 "a fixed allocator model: allocation never fails; addresses are concrete",
 "macro-side checks use proc-macro2's fallback implementation (the one used outside rustc) and hand the derive the attribute tokens rustc would",
 "strsim is replaced by a stub that finds no similar names: this only removes 'did you mean' hints from compile-error texts, which no property mentions",
]
json.dump(B, open(f"{V}/harness/bounds.json", "w"), indent=1)
