//! Generators with custom parts: each marks what it made.
use serde_json::{json, Value};
use std::borrow::Cow;
use xsd_parser::generator::{
    alias::AliasGenerator,
    base::{BaseGenerator, DefaultBaseGenerator},
    builder::GeneratorBuilder,
    enum_case::{DefaultEnumCaseGen, EnumCaseGenerator},
    import::ImportGenerator,
    r#enum::{DefaultEnumGen, EnumGenerator},
    r#struct::{DefaultStructGen, StructGenerator},
    struct_field::{DefaultStructFieldGen, StructFieldGenerator},
    tuple_struct::{DefaultTupleStructGen, TupleStructGenerator},
    Generator,
};
use xsd_parser::parser::types::{
    Alias, Enum, EnumCase, Import, Struct, StructField, TupleStruct, TypeModifier,
};

struct Custom(String);

impl Custom {
    fn is(&self, t: &str) -> bool {
        self.0 == t
    }
}

impl BaseGenerator for Custom {
    fn indent_size(&self) -> usize {
        if self.is("indent") { 1 } else { DefaultBaseGenerator.indent_size() }
    }
    fn format_name(&self, name: &str) -> Cow<'_, str> {
        let d = DefaultBaseGenerator.format_name(name).into_owned();
        if self.is("name") { format!("z_{}", d).into() } else { d.into() }
    }
    fn format_type_name(&self, type_name: &str, gen: &Generator) -> Cow<'_, str> {
        let mut d = DefaultBaseGenerator.format_type_name(type_name, gen).into_owned();
        if self.is("type") {
            let at = d.rfind([':', '<']).map_or(0, |i| i + 1);
            d.insert_str(at, "Tt");
        }
        d.into()
    }
    fn mod_name(&self, name: &str) -> String {
        let d = DefaultBaseGenerator.mod_name(name);
        if self.is("mod") { d + "_m" } else { d }
    }
    fn modify_type(&self, type_name: &str, modifiers: &[TypeModifier]) -> Cow<'_, str> {
        let d = DefaultBaseGenerator.modify_type(type_name, modifiers).into_owned();
        if self.is("modify") { format!("Cell<{}>", d).into() } else { d.into() }
    }
    fn format_comment(&self, comment: Option<&str>, indent: usize) -> String {
        let d = DefaultBaseGenerator.format_comment(comment, indent);
        if self.is("comment") { d + "// @custom\n" } else { d }
    }
}

impl StructGenerator for Custom {
    fn macros(&self, e: &Struct, gen: &Generator) -> Cow<'static, str> {
        format!("{}\n#[custom_struct_{}]\n", DefaultStructGen.macros(e, gen), self.0).into()
    }
}
impl StructFieldGenerator for Custom {
    fn macros(&self, e: &StructField, gen: &Generator) -> String {
        format!("{}\n#[custom_field_{}]\n", DefaultStructFieldGen.macros(e, gen), self.0)
    }
}
impl EnumGenerator for Custom {
    fn macros(&self, e: &Enum, gen: &Generator) -> Cow<'static, str> {
        format!("{}\n#[custom_enum_{}]\n", DefaultEnumGen.macros(e, gen), self.0).into()
    }
}
impl EnumCaseGenerator for Custom {
    fn macros(&self, e: &EnumCase, gen: &Generator) -> String {
        format!("{}\n#[custom_case_{}]\n", DefaultEnumCaseGen.macros(e, gen), self.0)
    }
}
impl TupleStructGenerator for Custom {
    fn macros(&self, e: &TupleStruct, gen: &Generator) -> Cow<'static, str> {
        format!("{}\n#[custom_tuple_{}]\n", DefaultTupleStructGen.macros(e, gen), self.0).into()
    }
}
impl AliasGenerator for Custom {
    fn generate(&self, e: &Alias, gen: &Generator) -> String {
        format!("#[custom_alias_{}] pub type {} = {};\n", self.0, AliasGenerator::format_name(self, &e.name, gen),
            self.format_original_type(&e.original, gen))
    }
}
impl ImportGenerator for Custom {
    fn generate(&self, e: &Import, _: &Generator) -> String {
        format!("#[custom_import_{}] const _: (&str, &str) = ({:?}, {:?});\n", self.0, e.name, e.location)
    }
}

/// Generates with a generator built by the calls, in their order.
pub fn generate(cmd: &Value, text: &'static str) -> Result<String, String> {
    let mut b = GeneratorBuilder::default();
    for c in cmd["calls"].as_array().unwrap() {
        let custom = Custom(c["tag"].as_str().unwrap().to_string());
        b = match c["slot"].as_str().unwrap() {
            "base" => b.with_base_gen(Box::new(custom)),
            "struct" => b.with_struct_gen(Box::new(custom)),
            "field" => b.with_struct_field_gen(Box::new(custom)),
            "enum" => b.with_enum_gen(Box::new(custom)),
            "case" => b.with_enum_case_gen(Box::new(custom)),
            "tuple" => b.with_tuple_struct_gen(Box::new(custom)),
            "alias" => b.with_alias_gen(Box::new(custom)),
            "import" => b.with_import_gen(Box::new(custom)),
            s => panic!("slot {}", s),
        };
    }
    let file = xsd_parser::parser::parse(text).map_err(|_| "err".to_string())?;
    Ok(b.build().generate_rs_file(&file))
}

pub fn observe(cmd: &Value, text: &'static str) -> Value {
    match generate(cmd, text) {
        Err(e) => json!({"st": e}),
        Ok(code) => {
            let mut v = crate::projected(&code, false);
            v["notes"] = json!(crate::notes::notes(&code));
            v
        }
    }
}
