#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os
C = "derive_builder_core/src/"
O = C + "macro_options/darling_opts.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

p("C01", "A built value carries exactly the last value set for every field",
  "For every sequence of setter calls on a derived builder, in any order, with repetitions and in any builder pattern, a successful build returns a struct whose every field equals the last value given to that field's setter. No setter call changes the value of any other field.",
  ["inputs", "histories"], "all field values; all setter-call sequences up to a bounded length, for the owned, mutable and immutable patterns and for field-level pattern overrides",
  "Tests call setters in one fixed order with a few literal values; they do not cover overwriting, interleaving, or all values.",
  [C + "setter.rs", C + "initializer.rs", C + "build_method.rs"],
  [("setter emission", C + "setter.rs"), ("per-field build-time initializer", C + "initializer.rs")],
  ["derived setters", "derived build method"])
p("C02", "Build fails exactly when a required field is unset, naming the first one",
  "A derived build method returns Ok if and only if every required field (a field with its own setter-backed value and neither a field-level nor a struct-level default) has been set. Otherwise it returns the uninitialized-field error carrying the name of the first such field in declaration order, whatever else is set or unset; fields are resolved in declaration order, so an error raised by an earlier field's default expression comes first.",
  ["inputs", "histories"], "every subset of set fields of structs mixing required, defaulted, optional, skipped and custom-typed fields, in all three builder patterns",
  "Tests try a handful of subsets (usually nothing set, or one missing).",
  [C + "initializer.rs", C + "build_method.rs", O],
  [("missing-value arm of the initializer", C + "initializer.rs"), ("field order in the build method", C + "lib.rs")],
  ["derived build method's Result"])
p("C03", "Default precedence: set value, then field default, then struct default",
  "For an unset field the build uses the field's own default (the given expression, or the type's Default for the bare word); if it has none, the same-named field of the struct-level default; a field that was set always keeps the set value, even when it equals the type's default. Default expressions are evaluated at each build, a field-level default only when its field is unset, they may read the builder's fields, and an error they raise with `?` becomes the build error.",
  ["inputs", "histories", "configurations"], "all values and all subsets of set fields over structs mixing field-level, struct-level and no defaults, in all patterns, including repeated builds",
  "Tests check one or two literal defaults each; none quantifies over which fields are set, over values, or over evaluation counts.",
  [C + "initializer.rs", C + "build_method.rs", C + "default_expression.rs", C + "block.rs", O],
  [("choice of the unset arm", C + "initializer.rs"), ("struct default binding", C + "build_method.rs"), ("use_parent_default", O)],
  ["derived build method"])
p("C04", "Builders are reusable: build and immutable setters leave the builder intact",
  "In the mutable and immutable patterns a build never changes the builder, so building again (with or without further setter calls) gives exactly what a fresh builder with the same history gives, and a clone of a builder evolves independently of it. In the immutable pattern (struct-level or for a single field) a setter never changes the builder it is called on but returns one differing only in that field.",
  ["histories", "inputs"], "all interleavings of setter, clone and build calls up to a bounded length, all values",
  "Tests build once or twice in fixed scripts.",
  [C + "setter.rs", C + "initializer.rs", C + "builder.rs", C + "build_method.rs"],
  [("receiver selection and cloning in setters", C + "setter.rs"), ("clone instead of move at build", C + "initializer.rs"), ("Clone derive on the builder", C + "builder.rs")],
  ["derived builder API"])
p("C05", "into and strip_option setters convert and wrap exactly as documented",
  "With `setter(into)` a setter accepts every type convertible into the field type and stores exactly the result of one conversion; without it, it takes the field type itself. With `setter(strip_option)` on an Option field it takes the inner type (or anything convertible into it, combined with into) and stores it wrapped in exactly one Some; on a non-Option field strip_option changes nothing. This holds in every pattern and also for fields with a custom builder type.",
  ["inputs", "configurations"], "all argument values, for every combination of pattern x into x strip_option x Option/non-Option field x default/custom builder field type",
  "Tests cover a few combinations with literals.",
  [C + "setter.rs", C + "builder_field.rs", O],
  [("argument type and wrapping", C + "setter.rs"), ("setter_type_info", C + "builder_field.rs")],
  ["derived setters"])
p("C06", "try_setter stores on success and reports the conversion error otherwise",
  "With `try_setter` every field also gets `try_<setter name>`, which performs one fallible conversion to the type the setter takes: if it succeeds the effect equals calling the plain setter with the converted value, and if it fails the call returns exactly that conversion error and a builder that was only borrowed is left unchanged. The plain setter is still generated, and strip_option, custom builder field types and all patterns are respected.",
  ["inputs", "histories"], "all convertible and unconvertible values, interleaved with plain setters, for every pattern x strip_option x field type combination",
  "Tests try two or three literals for one pattern.",
  [C + "setter.rs", O],
  [("fallible setter emission", C + "setter.rs"), ("try_setter flag inheritance", O)],
  ["derived try_ setters"])
p("C07", "each setters append one item at a time, in order, to the current collection",
  "With `setter(each)` the per-item setter adds exactly the given item (converted once when `into` is requested for it) at the end of the collection currently held by the builder, starting from the type's Default when nothing was set and never from the build-time default. The whole-collection setter still replaces the collection, and both can be mixed in any order in every pattern, also with strip_option.",
  ["histories", "inputs"], "all interleavings up to a bounded length of per-item setters, whole-collection setters and builds; all item values",
  "Tests use one or two fixed call chains.",
  [C + "setter.rs", C + "options.rs", O],
  [("each setter emission", C + "setter.rs"), ("Each options", C + "options.rs")],
  ["derived each setters"])
p("C08", "Validation runs once per build, first, on the builder, and its error wins",
  "When a validation function is configured, each build calls it exactly once with the builder in its current state, before any default expression is evaluated and before missing fields are reported. If it returns an error the build returns that error converted to the build error type and evaluates nothing else; if it returns Ok the build proceeds as without validation.",
  ["inputs", "histories"], "all field values and subsets of set fields, all validator outcomes, every pattern, generated and custom error types",
  "Tests use a validator on two or three literal inputs and never combine a failing validator with missing fields or side-effecting defaults.",
  [C + "build_method.rs", O],
  [("validate call placement", C + "build_method.rs"), ("build_fn(validate)", O)],
  ["derived build method"])
p("C09", "Build errors carry the documented contents and conversions",
  "The generated error is an enum named after the builder with `UninitializedField(name)` (displayed as: the name in backquotes, then ` must be initialized`) and, unless disabled, `ValidationError(message)` displayed as exactly the message; it converts from String and from the crate's uninitialized-field error without losing the text, and implements the std Error trait. A custom error type receives through its own conversions the crate's uninitialized-field error, whose accessor gives exactly the missing field's name and whose Display is `Field not initialized: ` followed by it, or the validator's error.",
  ["inputs", "configurations"], "all message contents up to a bounded length, every missing field, generated/custom/no-validation error configurations",
  "Tests compare a few literal messages.",
  [C + "builder.rs", "derive_builder/src/error.rs", C + "initializer.rs"],
  [("error enum emission", C + "builder.rs"), ("UninitializedFieldError", "derive_builder/src/error.rs")],
  ["error enum", "Display", "UninitializedFieldError"])
p("C10", "Skipped fields default at every build; custom-setter fields keep a slot",
  "A field whose setter is skipped always gets, at every build, its own default expression, else the struct default's field, else the type's Default, independent of every setter call on other fields, and never makes the build fail for being unset. A field with a custom setter keeps its normal optional slot in the builder, so a user-written setter controls it and defaults and missing-field errors apply as usual.",
  ["inputs", "histories", "configurations"], "all values and histories over structs mixing skipped, custom, defaulted and plain fields, in all patterns",
  "Tests check one skipped field with one literal default.",
  [C + "initializer.rs", C + "builder_field.rs", O],
  [("disabled-field initializer", C + "initializer.rs"), ("field_enabled / setter_enabled", O)],
  ["derived build method"])
p("C11", "Custom builder field types and build blocks are honoured",
  "With `field(ty = ..)` the builder stores exactly that type, starting from its Default, and setters assign it directly; without a build block the build takes the stored value as it is and the field is never reported missing. With `field(build = ..)` the target field is exactly the value of the given block, evaluated once per build with access to the builder through self, and an error it raises with `?` becomes the build error.",
  ["inputs", "histories"], "all stored values and histories, in all three patterns, with and without custom type and build block",
  "Tests use one literal per configuration.",
  [C + "initializer.rs", C + "builder_field.rs", C + "setter.rs", C + "block.rs", O],
  [("FieldConversion", C + "initializer.rs"), ("BuilderFieldType::Precise", C + "builder_field.rs"), ("conversion selection", O)],
  ["derived builder fields and build method"])
p("C12", "A new builder is empty, and its constructor is configured as asked",
  "A builder made by its Default implementation, or by its create-empty function (under the configured name), has no field set: custom-typed fields hold their type's Default and all others are None, whatever defaults are configured for building. `custom_constructor` suppresses exactly the Default implementation, and nothing else changes.",
  ["configurations", "inputs"], "all combinations of constructor options with field kinds; behaviour of the empty builder for all later setter values",
  "Tests check a custom constructor once and never that an empty builder ignores build-time defaults for all kinds of fields.",
  [C + "builder.rs", C + "builder_field.rs", O],
  [("create_empty and Default impl", C + "builder.rs"), ("default_initializer_tokens", C + "builder_field.rs")],
  ["Default for the builder", "create_empty"])
p("C13", "Struct-level options apply to every field unless the field overrides them",
  "For every option that exists at both levels (pattern, setter prefix, into, strip_option, skip, try_setter, setter visibility, builder-field visibility) the generated code for a field is exactly what writing the effective option on the field itself would give, where a field-level setting (including an explicit false) wins over the struct-level one and otherwise the struct-level one applies. A bare `setter` or any other setter option on a field (prefix, name, into, strip_option, each, custom = false) re-enables a setter that the struct skips, except with an explicit skip on the field.",
  ["configurations", "programs"], "all pairs of struct-level and field-level values of every inheritable option, jointly for pairs of options",
  "Tests exercise single override examples per option, not the cross product.",
  [O], [("FieldWithDefaults accessors", O), ("FieldLevelSetter::field_enabled", O)],
  ["generated token stream"])
p("C14", "Generated names follow the documented scheme",
  "The builder is `<Struct>Builder` or the configured name; setters are named by the field-level name if given, else prefix + `_` + field, else the field; fallible setters are `try_` + setter name; the error enum is the builder's name + `Error`; the build and create-empty methods have their configured or default names. This holds for every identifier, including raw identifiers as field names.",
  ["inputs", "configurations"], "all identifiers up to a bounded length (symbolic characters) and all combinations of naming options at both levels",
  "Tests use a few fixed names.",
  [O, C + "setter.rs", C + "builder.rs"],
  [("builder_ident / setter_ident", O), ("try_ ident", C + "setter.rs"), ("error ident", C + "builder.rs")],
  ["generated token stream"])
p("C15", "Visibility of every generated item is resolved as documented",
  "Setters have the field's visibility option if given, else the struct-level one, else pub; the builder struct and its error enum have the struct-level option, else the struct's own visibility; the build method has its own option, else the builder's visibility; builder fields are private unless a field-level or struct-level field visibility says otherwise (the own visibility of a field in the struct plays no role), and the generated constructor is always private. Conflicting visibility options are rejected with a compile error.",
  ["configurations"], "all combinations of public / private / vis at the five places they can be written, with all visibilities of the deriving struct",
  "Tests check individual items with one option each.",
  [O, C + "builder.rs", C + "setter.rs", C + "builder_field.rs"],
  [("VisibilityAttr", O), ("setter_vis / field_vis / builder_vis / build_method_vis", O)],
  ["generated token stream"])
p("C16", "strip_option recognises exactly the documented spellings of Option",
  "strip_option strips a field type if and only if it is written as Option<T>, std::option::Option<T> or core::option::Option<T> (each with or without a leading ::), giving a setter argument of exactly T for every T. (Paths ending in Option that do not have exactly one type argument are outside this statement.) Any other type, including other paths ending in Option, aliases and qualified paths, is used unchanged.",
  ["inputs", "programs"], "all path types of up to three segments with symbolic segment names, with and without leading colons and generic arguments",
  "Tests list seven example types.",
  [C + "setter.rs"], [("extract_type_from_option", C + "setter.rs")], ["generated setter signature"])
p("C17", "Attributes are forwarded to exactly the documented places",
  "doc, cfg and allow attributes of a field are copied, in order, to its builder field and to every setter generated for it; builder_field_attr, builder_setter_attr, builder_struct_attr and builder_impl_attr contents go, unwrapped, to exactly the builder field, the setters, the builder struct and the builder impl; struct-level cfg and allow go to the struct and the impl. No other attribute is copied anywhere.",
  ["programs", "configurations"], "all sequences up to a bounded length of attributes with symbolic names on structs and fields",
  "Tests check one attribute per kind.",
  [O, C + "builder.rs", C + "setter.rs", C + "builder_field.rs"],
  [("distribute_and_unnest_attrs", O), ("forward_attrs", O)], ["generated token stream"])
p("C18", "Misuse is rejected with a compile error, correct use never is",
  "Unknown option names, unknown pattern names, contradictory options (conflicting visibilities, a default together with a custom builder type or build block, a validator together with a disabled validation error, an empty default, the same option key written twice in one list), a builder_field_attr, builder_setter_attr, builder_struct_attr or builder_impl_attr that does not hold exactly one attribute, and targets other than structs with named fields make the derive expand to compile errors instead of a builder. Every combination of documented, non-contradictory options expands to a builder without compile error.",
  ["inputs", "programs", "configurations"], "all option keys and pattern strings up to a bounded length (symbolic characters) at struct, field, setter, field-meta, each and build_fn level; all pairs of documented options; all kinds of derive targets",
  "The compile-fail tests list a few concrete misuses.",
  [O, C + "options.rs", C + "lib.rs", C + "block.rs"],
  [("option parsing", O), ("Field::resolve, BuildFn::validation_needs_error, VisibilityAttr::from_list", O)], ["expansion result"])
p("C19", "The derive never panics",
  "For every syntactically valid item and every contents of its builder attributes, expanding the derive terminates with generated code or compile errors and never panics.",
  ["programs", "inputs"], "all combinations of up to a bounded number of options, well-formed and malformed, with symbolic identifiers, raw identifiers and literals, on any item kind",
  "Tests cannot enumerate option combinations; panics in rarely combined options surface to users as 'proc-macro derive panicked'.",
  [O, C + "setter.rs", C + "builder_field.rs", C + "initializer.rs", C + "lib.rs"],
  [("setter/field enabling consistency", O), ("identifier construction", C + "setter.rs")], ["builder_for_struct"])
p("C20", "Fields are independent: each field's generated code depends only on itself",
  "Adding, removing, reordering or reconfiguring other fields does not change the code generated for a field (its builder field, its setters, its initializer); generated fields, setters and initializers appear once per input field in declaration order, and expanding the same input twice gives identical output.",
  ["programs", "configurations"], "all pairs of field configurations drawn from every option, in both orders, with symbolic names",
  "Tests never compare expansions of related inputs.",
  [C + "lib.rs", C + "builder.rs", C + "build_method.rs", O],
  [("per-field loop", C + "lib.rs"), ("push_field / push_setter_fn / push_initializer", C + "builder.rs")], ["generated token stream"])
p("C21", "Generated code refers to the library only through the configured crate root",
  "Every path in generated code into derive_builder or its re-exports of core and alloc items starts with the path given by `crate = ..`, by default ::derive_builder, in every configuration. The only other path into core, alloc or std is the std Error impl of the generated error, and with `no_std` the generated code contains no reference to the std crate at all. Types, traits and modules of the deriving module that are named like core's own (Option, Result, String, Clone, Default, Into, core, ...) therefore never change the meaning of generated code.",
  ["configurations", "programs"], "all combinations of options that change which code is emitted, with default and custom crate roots (symbolic segment names)",
  "Tests use one custom root on one simple struct.",
  [O, C + "setter.rs", C + "builder.rs", C + "initializer.rs", C + "build_method.rs", C + "builder_field.rs", C + "default_expression.rs"],
  [("crate_root threading", O)], ["generated token stream"])
p("C22", "Generics and Clone requirements are propagated correctly",
  "The builder struct repeats the target's generics and where clause; its impls repeat them with exactly the additional Clone bound on every type parameter when the builder pattern is mutable or immutable, and unchanged for the owned pattern. Clone is derived on the builder if and only if the struct pattern or some field's pattern is mutable or immutable, alongside the traits requested by derive(..), in order.",
  ["programs", "configurations"], "all combinations of up to three generic parameters (lifetimes, types with bounds, consts), where clauses, patterns at both levels and derive lists",
  "Tests compile a few generic structs.",
  [C + "builder.rs", O, C + "options.rs"],
  [("compute_impl_bounds", C + "builder.rs"), ("requires_clone", O)], ["generated token stream"])
p("C23", "Without alloc the derive only emits allocation-free code or says why not",
  "When neither the std nor the alloc feature is enabled, the derive emits no reference to String or the validation error: it expands to a compile error exactly when the generated error type would need allocation (no custom error and validation error not disabled), and otherwise to code without it. With alloc or std enabled this compile error never appears.",
  ["configurations"], "all error/validation/no_std configurations under the no-alloc, alloc-only and std feature sets",
  "The no-alloc test crate contains two fixed structs.",
  [C + "builder.rs", O], [("no_alloc check", C + "builder.rs"), ("as_builder", O)], ["generated token stream"])
p("C24", "The build method is generated as configured",
  "Exactly one build method is generated unless build_fn(skip) is set, taking the builder by value in the owned pattern and by shared reference otherwise, returning Result of the target type (with its generics) and the configured error type; the generated error enum, its conversions and its std Error impl are present exactly when the configuration asks for them. Suppressing or renaming it changes nothing else in the output.",
  ["configurations"], "all combinations of build_fn options, patterns, generics, no_std and builder names",
  "Tests check single options.",
  [C + "build_method.rs", C + "builder.rs", O],
  [("BuildMethod emission", C + "build_method.rs"), ("as_build_method", O)], ["generated token stream"])
p("C25", "How options are written down does not matter, only what they say",
  "The expansion is the same whatever the order of the options in a list, however they are divided over several #[builder(..)] attributes (also empty ones, and with other attributes in between), with or without trailing commas, and for each of the documented spellings of the same option: a boolean option as a bare word or with `= true`, `each = \"name\"` or `each(name = \"name\")`, a default expression in a string or written directly, a name or path in a string or written directly, `public` or `vis = \"pub\"`; an expression may also arrive as a macro_rules fragment. Layout and comments inside a quoted expression do not matter either.",
  ["programs", "configurations"], "all pairs (thorough: triples) of documented options, and long lists with symbolic names, each rewritten in all these ways jointly",
  "Tests write each option in one way and one order.",
  [O, C + "default_expression.rs", C + "block.rs", C + "options.rs"],
  [("option parsing", O), ("DefaultExpression::from_expr / from_value", C + "default_expression.rs"), ("parse_each", O)], ["generated token stream"])
p("C26", "What builders do does not depend on the library's feature set",
  "With the alloc feature instead of std, builders behave exactly as with std. Without both, every builder whose error type needs no allocation (a custom error, or validation_error = false) still behaves exactly the same: setters, defaults, skipped and custom fields, validation, build errors and their text. All of this also holds for builders in a no_std crate.",
  ["configurations", "inputs", "histories"], "all values and subsets of set fields for structs with every kind of field, in all patterns, under the three feature sets, from a no_std crate; generated code of all pairs of options without alloc",
  "Tests run with default features; the no_std and no-alloc test crates build a few fixed values.",
  ["derive_builder/src/lib.rs", "derive_builder/src/error.rs", C + "builder.rs", "derive_builder_macro/src/lib.rs"],
  [("export::core per feature set", "derive_builder/src/lib.rs"), ("feature checks of the generated error", C + "builder.rs")], ["derived builder API"])
p("C27", "Types, expressions and paths written by the user are used verbatim",
  "The expansion is parametric in the field types, builder field types, default and build expressions, validator and error paths and derived traits that the user writes: whatever their form, exactly the written tokens appear at every place where the expansion of a placeholder has the placeholder, and nothing else changes (types recognised as Option by strip_option excepted). The generics and where clause of the struct do not influence the code generated for its fields.",
  ["programs", "inputs"], "35 forms of types (references, tuples, functions, arrays, macros, qualified paths, ...), 44 of expressions and blocks and 10 of paths, with symbolic names inside, in each place they can be written and every pattern; seven forms of generics with every option",
  "Tests use plain paths and literals nearly everywhere.",
  [C + "builder_field.rs", C + "setter.rs", C + "initializer.rs", C + "block.rs", C + "default_expression.rs", C + "build_method.rs"],
  [("user tokens passed through", C + "initializer.rs"), ("BlockContents", C + "block.rs"), ("BuilderFieldType", C + "builder_field.rs")], ["generated token stream"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
