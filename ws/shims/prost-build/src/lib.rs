//! Stand-in for `prost-build` 0.13: a proto3 compiler for the subset the repository uses (flat
//! messages, enums, scalar / enum / message fields, optional, repeated, oneof).
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::path::Path;

#[derive(Debug)]
struct Field {
    label: String,
    ty: String,
    name: String,
    tag: u32,
}
#[derive(Debug)]
enum Item {
    Field(Field),
    Oneof(String, Vec<Field>),
}
#[derive(Default, Debug)]
struct File {
    package: String,
    messages: Vec<(String, Vec<Item>)>,
    enums: Vec<(String, Vec<(String, i32)>)>,
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    let mut it = src.chars().peekable();
    while let Some(c) = it.next() {
        if c.is_whitespace() {
            continue;
        }
        if c == '/' && it.peek() == Some(&'/') {
            for c in it.by_ref() {
                if c == '\n' {
                    break;
                }
            }
        } else if c == '/' && it.peek() == Some(&'*') {
            let mut p = ' ';
            for c in it.by_ref() {
                if p == '*' && c == '/' {
                    break;
                }
                p = c;
            }
        } else if c == '"' {
            let mut s = String::from("\"");
            for c in it.by_ref() {
                s.push(c);
                if c == '"' {
                    break;
                }
            }
            out.push(s);
        } else if c.is_alphanumeric() || c == '_' || c == '-' || c == '.' {
            let mut s = String::from(c);
            while let Some(&c) = it.peek() {
                if c.is_alphanumeric() || c == '_' || c == '.' {
                    s.push(c);
                    it.next();
                } else {
                    break;
                }
            }
            out.push(s);
        } else {
            out.push(c.to_string());
        }
    }
    out
}

struct P {
    t: Vec<String>,
    i: usize,
}
impl P {
    fn next(&mut self) -> String {
        let s = self.t.get(self.i).cloned().unwrap_or_else(|| panic!("unexpected end of proto file"));
        self.i += 1;
        s
    }
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|s| s.as_str()).unwrap_or("")
    }
    fn expect(&mut self, s: &str) {
        let n = self.next();
        assert!(n == s, "expected {s:?}, found {n:?}");
    }
    fn options(&mut self) {
        if self.peek() == "[" {
            while self.next() != "]" {}
        }
    }
    fn field(&mut self) -> Field {
        let mut ty = self.next();
        let mut label = String::new();
        if ty == "optional" || ty == "repeated" {
            label = ty;
            ty = self.next();
        }
        assert!(ty != "map", "map fields are not supported");
        let name = self.next();
        self.expect("=");
        let tag = self.next().parse().expect("field number");
        self.options();
        self.expect(";");
        Field { label, ty, name, tag }
    }
}

fn parse(src: &str) -> File {
    let mut p = P { t: tokens(src), i: 0 };
    let mut f = File::default();
    while p.i < p.t.len() {
        match p.next().as_str() {
            "syntax" | "option" => while p.next() != ";" {},
            "import" => panic!("imports are not supported"),
            "package" => {
                f.package = p.next();
                p.expect(";");
            }
            ";" => {}
            "message" => {
                let name = p.next();
                let mut items = vec![];
                p.expect("{");
                loop {
                    match p.peek() {
                        "}" => {
                            p.next();
                            break;
                        }
                        ";" => {
                            p.next();
                        }
                        "reserved" | "option" => while p.next() != ";" {},
                        "message" | "enum" => panic!("nested declarations are not supported"),
                        "oneof" => {
                            p.next();
                            let n = p.next();
                            p.expect("{");
                            let mut fs = vec![];
                            while p.peek() != "}" {
                                fs.push(p.field());
                            }
                            p.next();
                            items.push(Item::Oneof(n, fs));
                        }
                        _ => items.push(Item::Field(p.field())),
                    }
                }
                let mut seen = BTreeSet::new();
                for i in &items {
                    let tags: Vec<u32> = match i {
                        Item::Field(f) => vec![f.tag],
                        Item::Oneof(_, fs) => fs.iter().map(|f| f.tag).collect(),
                    };
                    for t in tags {
                        assert!(t > 0 && seen.insert(t), "field number {t} used twice in {name}");
                    }
                }
                f.messages.push((name, items));
            }
            "enum" => {
                let name = p.next();
                let mut vs = vec![];
                p.expect("{");
                loop {
                    match p.next().as_str() {
                        "}" => break,
                        ";" => {}
                        "reserved" | "option" => while p.next() != ";" {},
                        v => {
                            p.expect("=");
                            let n: i32 = p.next().parse().expect("enum number");
                            p.options();
                            p.expect(";");
                            vs.push((v.to_string(), n));
                        }
                    }
                }
                let mut seen = BTreeSet::new();
                for (_, n) in &vs {
                    assert!(seen.insert(*n), "enum value {n} used twice in {name}");
                }
                f.enums.push((name, vs));
            }
            t => panic!("unexpected token {t:?} in proto file"),
        }
    }
    f
}

/// heck's word splitting, restricted to what proto identifiers contain.
fn words(s: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for part in s.split('_').filter(|p| !p.is_empty()) {
        let cs: Vec<char> = part.chars().collect();
        let mut cur = String::new();
        for (i, c) in cs.iter().enumerate() {
            if c.is_uppercase() && !cur.is_empty() {
                let prev_lower = cs[i - 1].is_lowercase();
                let next_lower = cs.get(i + 1).map(|c| c.is_lowercase()).unwrap_or(false);
                if prev_lower || (cs[i - 1].is_uppercase() && next_lower) {
                    out.push(std::mem::take(&mut cur));
                }
            }
            cur.push(*c);
        }
        out.push(cur);
    }
    out
}
fn camel(s: &str) -> String {
    words(s)
        .iter()
        .map(|w| {
            let mut c = w.chars();
            let f = c.next().unwrap();
            f.to_uppercase().collect::<String>() + &c.as_str().to_lowercase()
        })
        .collect()
}
fn snake(s: &str) -> String {
    let s = words(s).iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_");
    match s.as_str() {
        "type" | "match" | "ref" | "move" | "fn" | "use" | "mod" | "where" | "in" | "as" | "box"
        | "loop" | "enum" | "struct" | "impl" | "let" | "const" | "static" | "if" | "else" => format!("r#{s}"),
        _ => s,
    }
}

fn kind(ty: &str, enums: &BTreeSet<String>) -> Option<(&'static str, &'static str)> {
    Some(match ty {
        "uint64" => ("Uint64", "u64"),
        "uint32" => ("Uint32", "u32"),
        "int64" => ("Int64", "i64"),
        "int32" => ("Int32", "i32"),
        "bool" => ("Bool", "bool"),
        "double" => ("Double", "f64"),
        "float" => ("Float", "f32"),
        "fixed64" => ("Fixed64", "u64"),
        "fixed32" => ("Fixed32", "u32"),
        "string" => ("Str", "::std::string::String"),
        "bytes" => ("Bytes", "::std::vec::Vec<u8>"),
        t if enums.contains(t) => ("Enum", "i32"),
        _ => return None,
    })
}

fn generate(f: &File) -> String {
    let mut o = String::new();
    let enums: BTreeSet<String> = f.enums.iter().map(|e| e.0.clone()).collect();
    let msgs: BTreeSet<String> = f.messages.iter().map(|m| m.0.clone()).collect();
    // prost derives Copy for a message (or oneof) made of Copy scalars and Copy messages only
    let mut copy: BTreeSet<String> = msgs.clone();
    loop {
        let ok = |fl: &Field, c: &BTreeSet<String>| fl.label != "repeated" && fl.ty != "string" && fl.ty != "bytes" && (kind(&fl.ty, &enums).is_some() || c.contains(&fl.ty));
        let next: BTreeSet<String> = f.messages.iter().filter(|(_, items)| items.iter().all(|i| match i { Item::Field(fl) => ok(fl, &copy), Item::Oneof(_, fs) => fs.iter().all(|fl| ok(fl, &copy)) })).map(|m| m.0.clone()).collect();
        if next == copy { break; }
        copy = next;
    }
    for (name, items) in &f.messages {
        let rs = camel(name);
        let mut fields = String::new();
        let mut enc = String::new();
        let mut dec = String::new();
        let mut acc = String::new();
        let mut oneofs = String::new();
        for it in items {
            match it {
                Item::Field(fl) => {
                    let n = snake(&fl.name);
                    let t = fl.tag;
                    if let Some((k, ty)) = kind(&fl.ty, &enums) {
                        let (pre, wrap) = match fl.label.as_str() {
                            "optional" => ("opt", format!("::core::option::Option<{ty}>")),
                            "repeated" => ("rep", format!("::std::vec::Vec<{ty}>")),
                            _ => ("one", ty.to_string()),
                        };
                        writeln!(fields, "    pub {n}: {wrap},").unwrap();
                        writeln!(enc, "        ::prost::rt::{pre}::<::prost::rt::{k}>({t}, &self.{n}, out);").unwrap();
                        writeln!(dec, "            {t} => ::prost::rt::get_{pre}::<::prost::rt::{k}>(&mut self.{n}, w),").unwrap();
                        if k == "Enum" && fl.label != "repeated" {
                            let e = camel(&fl.ty);
                            let get = if fl.label == "optional" { format!("self.{n}.unwrap_or(0)") } else { format!("self.{n}") };
                            let set = if fl.label == "optional" { "Some(value as i32)" } else { "value as i32" };
                            let raw = n.trim_start_matches("r#");
                            writeln!(acc, "    pub fn {n}(&self) -> {e} {{ {e}::try_from({get}).unwrap_or_default() }}\n    pub fn set_{raw}(&mut self, value: {e}) {{ self.{n} = {set}; }}").unwrap();
                        }
                    } else {
                        assert!(msgs.contains(&fl.ty), "unknown type {} in {name}", fl.ty);
                        let ty = camel(&fl.ty);
                        let (pre, wrap) = if fl.label == "repeated" {
                            ("rep", format!("::std::vec::Vec<{ty}>"))
                        } else {
                            ("opt", format!("::core::option::Option<{ty}>"))
                        };
                        writeln!(fields, "    pub {n}: {wrap},").unwrap();
                        writeln!(enc, "        ::prost::rt::msg_{pre}({t}, &self.{n}, out);").unwrap();
                        writeln!(dec, "            {t} => ::prost::rt::get_msg_{pre}(&mut self.{n}, w),").unwrap();
                    }
                }
                Item::Oneof(on, fs) => {
                    let n = snake(on);
                    let m = snake(name);
                    let e = camel(on);
                    writeln!(fields, "    pub {n}: ::core::option::Option<{m}::{e}>,").unwrap();
                    writeln!(oneofs, "pub mod {m} {{\n    #[derive(Clone, {}PartialEq, Debug)]\n    pub enum {e} {{", if fs.iter().all(|fl| fl.ty != "string" && fl.ty != "bytes") { "Copy, " } else { "" }).unwrap();
                    writeln!(enc, "        match &self.{n} {{\n            None => {{}}").unwrap();
                    for fl in fs {
                        let v = camel(&fl.name);
                        let (k, ty) = kind(&fl.ty, &enums).expect("oneof of scalars");
                        writeln!(oneofs, "        {v}({ty}),").unwrap();
                        writeln!(enc, "            Some({m}::{e}::{v}(v)) => <::prost::rt::{k} as ::prost::rt::Kind>::write({}, v, out),", fl.tag).unwrap();
                        writeln!(dec, "            {} => {{ self.{n} = Some({m}::{e}::{v}(<::prost::rt::{k} as ::prost::rt::Kind>::read(w)?)); Ok(()) }}", fl.tag).unwrap();
                    }
                    writeln!(oneofs, "    }}\n}}").unwrap();
                    writeln!(enc, "        }}").unwrap();
                }
            }
        }
        writeln!(o, "#[derive(Clone, {}PartialEq, Default, Debug)]\npub struct {rs} {{\n{fields}}}", if copy.contains(name) { "Copy, " } else { "" }).unwrap();
        writeln!(o, "impl {rs} {{\n{acc}}}").unwrap();
        writeln!(o, "impl ::prost::Message for {rs} {{\n    #[allow(unused_variables)]\n    fn shim_encode(&self, out: &mut ::std::vec::Vec<u8>) {{\n{enc}    }}\n    fn shim_merge(&mut self, tag: u32, w: ::prost::rt::Wire<'_>) -> ::core::result::Result<(), ::prost::DecodeError> {{\n        match tag {{\n{dec}            _ => Ok(()),\n        }}\n    }}\n}}\n{oneofs}").unwrap();
    }
    for (name, vs) in &f.enums {
        let rs = camel(name);
        let vars: Vec<String> = vs.iter().map(|v| camel(&v.0)).collect();
        // prost strips the enum's own name from its variants
        let strip = |v: &str| -> String {
            match v.strip_prefix(&rs) {
                Some(s) if s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) => s.to_string(),
                _ => v.to_string(),
            }
        };
        let vars: Vec<String> = vars.iter().map(|v| strip(v)).collect();
        writeln!(o, "#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum {rs} {{").unwrap();
        for (v, (_, n)) in vars.iter().zip(vs) {
            writeln!(o, "    {v} = {n},").unwrap();
        }
        writeln!(o, "}}\nimpl ::core::default::Default for {rs} {{ fn default() -> Self {{ {rs}::{} }} }}", vars[0]).unwrap();
        writeln!(o, "impl {rs} {{\n    pub fn is_valid(v: i32) -> bool {{ Self::try_from(v).is_ok() }}\n    pub fn as_str_name(&self) -> &'static str {{ match self {{").unwrap();
        for (v, (raw, _)) in vars.iter().zip(vs) {
            writeln!(o, "        {rs}::{v} => {raw:?},").unwrap();
        }
        writeln!(o, "    }} }}\n    pub fn from_str_name(v: &str) -> ::core::option::Option<Self> {{ match v {{").unwrap();
        for (v, (raw, _)) in vars.iter().zip(vs) {
            writeln!(o, "        {raw:?} => Some({rs}::{v}),").unwrap();
        }
        writeln!(o, "        _ => None,\n    }} }}\n}}").unwrap();
        writeln!(o, "impl ::core::convert::TryFrom<i32> for {rs} {{\n    type Error = ::prost::UnknownEnumValue;\n    fn try_from(v: i32) -> ::core::result::Result<Self, Self::Error> {{ match v {{").unwrap();
        for (v, (_, n)) in vars.iter().zip(vs) {
            writeln!(o, "        {n} => Ok({rs}::{v}),").unwrap();
        }
        writeln!(o, "        v => Err(::prost::UnknownEnumValue(v)),\n    }} }}\n}}\nimpl From<{rs}> for i32 {{ fn from(v: {rs}) -> i32 {{ v as i32 }} }}").unwrap();
    }
    o
}

pub fn compile_protos(protos: &[impl AsRef<Path>], _includes: &[impl AsRef<Path>]) -> std::io::Result<()> {
    let out = std::env::var("OUT_DIR").expect("OUT_DIR");
    let mut pkgs: BTreeMap<String, String> = BTreeMap::new();
    for p in protos {
        println!("cargo:rerun-if-changed={}", p.as_ref().display());
        let f = parse(&std::fs::read_to_string(p)?);
        pkgs.entry(f.package.clone()).or_default().push_str(&generate(&f));
    }
    for (k, v) in pkgs {
        std::fs::write(Path::new(&out).join(format!("{k}.rs")), v)?;
    }
    Ok(())
}
