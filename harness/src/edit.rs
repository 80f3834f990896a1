//! Histories of edits: a document is read, edited through the public API as the specification says, saved
//! (and perhaps read again) and every saved file must be the layout of the edited document.
use crate::asset::*;
use crate::common::*;
use crate::wire;
use serde_json::Value;
use unreal_asset::exports::{ExportBaseTrait, ExportNormalTrait};
use unreal_asset::properties::{
    array_property::ArrayProperty, enum_property::EnumProperty, int_property::*, map_property::MapProperty, object_property::ObjectProperty,
    str_property::*, struct_property::StructProperty, Property, PropertyDataTrait,
};
use unreal_asset::types::{FName, PackageIndex};
use unreal_asset::unversioned::ancestry::Ancestry;
use unreal_asset::{Guid, Import};

fn arr(v: &Value) -> &[Value] { v.as_array().map(|v| v.as_slice()).unwrap_or(&[]) }
fn n(v: &Value) -> i32 { wire::num(v) as i32 }
fn guid_n(v: &Value) -> Guid { let b = wire::encode(&[serde_json::json!({"t": "guid", "v": v})]).bytes; Guid::new(b.try_into().unwrap()) }
fn guid_o(v: &Value) -> Option<Guid> { (n(v) >= 0).then(|| guid_n(v)) }

struct Ed { a: A, said: Vec<String> }
impl Ed {
    fn name(&mut self, v: &Value) -> FName { self.name2(v[0].as_str().unwrap(), n(&v[1])) }
    fn name2(&mut self, t: &str, number: i32) -> FName {
        let t = wire::text(t);
        self.said.push(t.clone());
        // one of the two ways of the public API
        if number == 0 { self.a.add_fname(&t) } else { self.a.get_name_map().get_mut().add_fname_with_number(&t, number) }
    }
    fn text(v: &Value) -> Option<String> { v["some"].as_bool().unwrap().then(|| wire::text(v["v"].as_str().unwrap())) }
    /// a property of a simple type
    fn leaf(&mut self, ty: &str, v: &Value) -> Property {
        match ty {
            "IntProperty" => IntProperty { value: n(v), ..Default::default() }.into(),
            "FloatProperty" => FloatProperty { value: crate::wire::real32(n(v) as i128).into(), ..Default::default() }.into(),
            "StrProperty" => StrProperty { name: FName::default(), ancestry: Ancestry::default(), property_guid: None, duplication_index: 0, value: Self::text(v) }.into(),
            "NameProperty" => NameProperty { name: FName::default(), ancestry: Ancestry::default(), property_guid: None, duplication_index: 0, value: self.name(v) }.into(),
            "ObjectProperty" => ObjectProperty { value: PackageIndex::new(n(v)), ..Default::default() }.into(),
            "BoolProperty" => BoolProperty { value: v.as_bool().unwrap(), ..Default::default() }.into(),
            "EnumProperty" => EnumProperty { enum_type: Some(self.name(&v[0])), value: Some(self.name(&v[1])), ..Default::default() }.into(),
            "ByteProperty" => ByteProperty { enum_type: Some(self.name(&v[0])), value: BytePropertyValue::Byte(n(&v[1]) as u8), ..Default::default() }.into(),
            _ => panic!("leaf {ty}"),
        }
    }
    fn meta(&mut self, p: &mut Property, name: FName, dup: i32, gd: Option<Guid>) {
        macro_rules! m { ($($t:ident),*) => { match p { $(Property::$t(q) => { q.name = name; q.duplication_index = dup; q.property_guid = gd; q.ancestry = Ancestry::new(FName::from_slice("x")); })* _ => panic!("meta") } } }
        m!(IntProperty, FloatProperty, StrProperty, NameProperty, ObjectProperty, BoolProperty, EnumProperty, ByteProperty, StructProperty, ArrayProperty, MapProperty)
    }
    fn tree(&mut self, t: &Value) -> Property {
        let ty = s(t, "ty");
        let v = &t["v"];
        let mut p: Property = match ty {
            "StructProperty" => {
                let kids = arr(&v["kids"]).iter().map(|k| self.tree(k)).collect();
                StructProperty { struct_type: Some(self.name2(s(v, "st"), 0)), struct_guid: Some(guid_n(&v["g"])), serialize_none: true, value: kids, ..Default::default() }.into()
            }
            "ArrayProperty" => {
                let et = s(v, "et");
                let items = arr(&v["items"]).iter().map(|k| self.leaf(et, k)).collect();
                ArrayProperty { array_type: Some(self.name2(et, 0)), value: items, ..Default::default() }.into()
            }
            "MapProperty" => {
                let mut m = MapProperty { key_type: self.name2("NameProperty", 0), value_type: self.name2("IntProperty", 0), ..Default::default() };
                for e in arr(v) { let (k, v) = self.entry(e); m.value.insert(k, v); }
                m.into()
            }
            _ => self.leaf(ty, v),
        };
        let name = self.name(&t["name"]);
        self.meta(&mut p, name, n(&t["dup"]), guid_o(&t["gd"]));
        p
    }
    fn entry(&mut self, e: &Value) -> (Property, Property) {
        let k = self.name2(e[0].as_str().unwrap(), n(&e[1]));
        (NameProperty { name: FName::default(), ancestry: Ancestry::default(), property_guid: None, duplication_index: 0, value: k }.into(), IntProperty { value: n(&e[2]), ..Default::default() }.into())
    }
    fn props(&mut self, k: usize) -> &mut Vec<Property> { &mut self.a.asset_data.exports[k].get_normal_export_mut().expect("a normal export").properties }
    fn edit_props(&mut self, k: usize, e: &Value) {
        let path: Vec<usize> = arr(&e["path"]).iter().map(|v| n(v) as usize - 1).collect();
        // take the list out, edit, put back
        let mut list = std::mem::take(self.props(k));
        self.walk(&mut list, &path, e);
        *self.props(k) = list;
    }
    fn walk(&mut self, list: &mut Vec<Property>, path: &[usize], e: &Value) {
        let a = s(e, "a");
        let j = path[0];
        if path.len() == 1 {
            match a {
                "val" => {
                    let ty = s(e, "ty");
                    match (&mut list[j], self.leaf(ty, &e["v"])) {
                        (Property::IntProperty(p), Property::IntProperty(q)) => p.value = q.value,
                        (Property::FloatProperty(p), Property::FloatProperty(q)) => p.value = q.value,
                        (Property::StrProperty(p), Property::StrProperty(q)) => p.value = q.value,
                        (Property::NameProperty(p), Property::NameProperty(q)) => p.value = q.value,
                        (Property::ObjectProperty(p), Property::ObjectProperty(q)) => p.value = q.value,
                        (Property::BoolProperty(p), Property::BoolProperty(q)) => p.value = q.value,
                        (Property::EnumProperty(p), Property::EnumProperty(q)) => { p.enum_type = q.enum_type; p.value = q.value }
                        (Property::ByteProperty(p), Property::ByteProperty(q)) => { p.enum_type = q.enum_type; p.value = q.value }
                        (p, _) => panic!("a {ty} was read as {p:?}"),
                    }
                }
                "meta" => {
                    let name = self.name(&e["name"]);
                    let mut p = list.remove(j);
                    self.meta(&mut p, name, n(&e["dup"]), guid_o(&e["gd"]));
                    list.insert(j, p);
                }
                "ins" => { let p = self.tree(&e["tree"]); list.insert(j, p) }
                "del" => { list.remove(j); }
                _ => panic!("edit {a}"),
            }
            return;
        }
        let i = path[1];
        match &mut list[j] {
            Property::StructProperty(p) => self.walk(&mut p.value, &path[1..], e),
            Property::MapProperty(p) => match a {
                "ins" => {
                    let (mut k, v) = self.entry(&e["tree"]);
                    *k.get_name_mut() = p.name.clone();
                    p.value.insert(k, v)
                }
                "del" => { let k = p.value.iter().nth(i).unwrap().1.clone(); p.value.remove_by_key(&k).expect("the key is there"); }
                "set" => {
                    let v = self.entry(&e["tree"]).1;
                    let k = p.value.iter().nth(i).unwrap().1.clone();
                    *p.value.get_by_key_mut(&k).expect("the key is there") = v;
                }
                _ => panic!("edit {a}"),
            },
            Property::ArrayProperty(p) if path.len() == 2 => match a {
                "ins" if e["et"] == "StructProperty" => { let q = p.value[i_(e, "from") - 1].clone(); p.value.insert(i, q) }
                "ins" => { let q = self.leaf(s(e, "et"), &e["tree"]); p.value.insert(i, q) }
                "set" => p.value[i] = self.leaf(s(e, "et"), &e["tree"]),
                "del" => { p.value.remove(i); }
                _ => panic!("edit {a}"),
            },
            Property::ArrayProperty(p) => match &mut p.value[i] { Property::StructProperty(q) => self.walk(&mut q.value, &path[2..], e), q => panic!("not a struct: {q:?}") },
            p => panic!("cannot go into {p:?}"),
        }
    }
    fn import(&mut self, v: &Value) -> Import {
        Import::new(self.name(&v["cp"]), self.name(&v["cn"]), PackageIndex::new(n(&v["outer"])), self.name(&v["on"]), v["opt"].as_bool().unwrap())
    }
    fn apply(&mut self, o: &Value) {
        let k = o.get("k").map(|k| n(k) as usize - 1).unwrap_or(0);
        match s(o, "op") {
            "prop" => self.edit_props(k, &o["e"]),
            "copy" => { let p = self.props(k)[i_(o, "j") - 1].clone(); self.props(i_(o, "to") - 1).push(p) }
            "extras" => self.a.asset_data.exports[k].get_normal_export_mut().unwrap().extras = arr(&o["v"]).iter().map(|b| n(b) as u8).collect(),
            "addexport" => {
                let mut x = self.a.asset_data.exports[i_(o, "from") - 1].clone();
                x.get_base_export_mut().object_name = self.name(&o["name"]);
                x.get_base_export_mut().outer_index = PackageIndex::new(n(&o["outer"]));
                self.a.asset_data.exports.push(x);
            }
            "delexport" => { self.a.asset_data.exports.pop().unwrap(); }
            "addimport" => { let v = self.import(&o["v"]); let want = -(self.a.imports.len() as i32) - 1; assert_eq!(self.a.add_import(v).index, want) }
            "import" => { let on = self.name(&o["on"]); let m = &mut self.a.imports[i_(o, "j") - 1]; m.object_name = on; m.outer_index = PackageIndex::new(n(&o["outer"])) }
            "addname" => { self.name2(s(o, "v"), 0); }
            "base" => {
                let (f, v) = (s(&o["s"], "f"), &o["s"]["v"]);
                let name = if f == "name" { self.name(v) } else { FName::default() };
                let b = self.a.asset_data.exports[k].get_base_export_mut();
                match f {
                    "outer" => b.outer_index = PackageIndex::new(n(v)),
                    "sup" => b.super_index = PackageIndex::new(n(v)),
                    "tpl" => b.template_index = PackageIndex::new(n(v)),
                    "name" => b.object_name = name,
                    "flags" => b.object_flags = unreal_asset::flags::EObjectFlags::from_bits(n(v) as u32).unwrap(),
                    "forced" => b.forced_export = v.as_bool().unwrap(),
                    "nfc" => b.not_for_client = v.as_bool().unwrap(),
                    "nfs" => b.not_for_server = v.as_bool().unwrap(),
                    "guid" => b.package_guid = guid_n(v),
                    "inh" => b.is_inherited_instance = v.as_bool().unwrap(),
                    "pflags" => b.package_flags = n(v) as u32,
                    "nal" => b.not_always_loaded_for_editor_game = v.as_bool().unwrap(),
                    "isasset" => b.is_asset = v.as_bool().unwrap(),
                    "gph" => b.generate_public_hash = v.as_bool().unwrap(),
                    "deps" => {
                        let l = arr(v).iter().map(|v| PackageIndex::new(n(v))).collect();
                        *match n(&o["s"]["l"]) {
                            1 => &mut b.serialization_before_serialization_dependencies,
                            2 => &mut b.create_before_serialization_dependencies,
                            3 => &mut b.serialization_before_create_dependencies,
                            _ => &mut b.create_before_create_dependencies,
                        } = l
                    }
                    _ => panic!("field {f}"),
                }
            }
            "header" => match s(o, "f") {
                "folder" => self.a.folder_name = wire::text(s(o, "v")),
                "guid" => self.a.package_guid = guid_n(&o["v"]),
                _ => self.a.package_source = n(&o["v"]) as u32,
            },
            op => panic!("op {op}"),
        }
    }
}
fn i_(v: &Value, k: &str) -> usize { n(&v[k]) as usize }

/// The table of contents of a saved file against where things really are in it. The values in the file are not judged
/// here, and objects are taken to be as long as they are said to be when they are not as long as they should be.
fn contents(bound: &[Value], p: &Parts) -> Result<(), String> {
    let mut bytes = p.head.clone();
    if let Some(b) = &p.bulk { bytes.extend(b) }
    let hdr = bound.iter().position(|t| s(t, "t") == "lbl" && s(t, "v") == "hdr").unwrap();
    let mut w = wire::walk(&bound[..hdr], &bytes)?;
    if p.bulk.is_some() && w.end != p.head.len() { return Err(format!("the header part is {} bytes long but its sections are {}", p.head.len(), w.end)) }
    let at = w.at.clone();
    match wire::walk(bound, &bytes) {
        Ok(all) if all.end == bytes.len() => w = all,
        _ => {
            w.labels.insert("hdr".into(), w.end);
            let mut x = w.end;
            w.labels.insert("x1".into(), x);
            for (n, t) in bound[..hdr].iter().enumerate() {
                if s(t, "t") == "pos" && s(t, "a").starts_with('x') && s(t, "b").starts_with('x') {
                    x = (x as i128 + wire::field(&bytes, at[n], i(t, "w") as usize)).max(0) as usize;
                    w.labels.insert(s(t, "a").into(), x);
                }
            }
            w.labels.insert("bulk".into(), x);
            if x + 4 != bytes.len() { return Err(format!("the objects end at {x} but the file ends at {}", bytes.len())) }
        }
    }
    let l = |k: &str| if k == "0" { 0 } else { w.labels[k] as i128 };
    for (n, t) in bound[..hdr].iter().enumerate() {
        let (width, want) = if s(t, "t") == "pos" { (i(t, "w") as usize, l(s(t, "a")) - l(s(t, "b"))) } else if t["count"] == true { (4, wire::num(&t["v"])) } else { continue };
        let got = wire::field(&bytes, at[n], width);
        if got != want { return Err(format!("the field at {} ({t}) holds {got}, should be {want}", at[n])) }
    }
    Ok(())
}

fn one(c: &Value, rep: &mut Report, toc: bool) -> Result<(), (&'static str, String)> {
    let steps = c["steps"].as_array().unwrap();
    let split = c["split"].as_bool().unwrap();
    let toks = steps[0]["toks"].as_array().unwrap();
    let orig = wire::collect_names(toks);
    let p = lay(&wire::bind_names(toks, &orig).unwrap(), split);
    let a = match open(&p, i(c, "eng")) { Ok(a) => a, Err(_) if toc => return Ok(()), Err(m) => return Err(("read", m)) };
    let mut ed = Ed { a, said: vec![] };
    if !toc { check_view(&ed.a, &steps[0]["view"]).map_err(|m| ("view0", m))? }
    let mut table = orig.clone(); // as of the last time the file was read
    let mut nref: Option<i32> = None; // overrides the stored number of referenced names
    for (k, o) in steps.iter().enumerate().skip(1) {
        rep.steps += 1;
        if s(o, "op") != "save" {
            rep.stat(s(o, "op"));
            match guard(|| ed.apply(o)) { Ok(()) => continue, Err(_) if toc => return Ok(()), Err(m) => return Err(("apply", format!("step {k} {o}: {m}"))) }
        }
        let q = match save(&ed.a, split) { Ok(q) => q, Err(_) if toc => return Ok(()), Err(m) => return Err(("write", m)) };
        let toks = o["toks"].as_array().unwrap();
        let after = ed.a.get_name_map().get_ref().get_name_map_index_list().to_vec();
        // names that were lost are not the business of the table of contents
        if !toc {
        if after.len() < table.len() || after[..table.len()] != table[..] { return Err(("table", format!("the entries of the name table were {table:?} and became {after:?}"))) }
        let used = wire::collect_names(toks);
        if let Some(n) = after[table.len()..].iter().find(|n| !used.contains(n) && !ed.said.contains(n)) { return Err(("table", format!("{n:?} was added to the name table but is not used"))) }
        if let Some(n) = ed.said.iter().find(|n| !after.contains(n)) { return Err(("table", format!("{n:?} was added by the user but is not in the name table"))) }
        }
        ed.said.extend(after[table.len()..].iter().cloned());
        let cur = if after.len() > table.len() { Some(after.len() as i32) } else { nref };
        let toks2: Vec<Value> = toks.iter().map(|t| match (s(t, "t"), cur) { ("nref", Some(n)) => serde_json::json!({"t": "i32", "v": n}), ("names", _) => {
            let mut t = t.clone();
            // hashes stored with the original entries stay
            t["alt"] = Value::Array(t["alt"].as_array().unwrap().iter().filter(|a| orig.contains(&wire::text(s(a, "n")))).cloned().collect());
            t
        } _ => t.clone() }).collect();
        let bound = match wire::bind_names(&toks2, &after) { Ok(b) => b, Err(_) if toc => return Ok(()), Err(m) => return Err(("table", m)) };
        if toc { contents(&bound, &q).map_err(|m| ("contents", format!("save at step {k}: {m}")))?; rep.stat("saves"); }
        else if let Some(m) = diff(&bound, &lay(&bound, split), &q) { return Err(("bytes", format!("save at step {k}: {m}"))) }
        let b = match open(&q, i(c, "eng")) { Ok(b) => b, Err(_) if toc => return Ok(()), Err(m) => return Err(("reread", m)) };
        if !toc {
            check_view(&b, &o["view"]).map_err(|m| ("view", format!("save at step {k}: {m}")))?;
            rep.stat("saves");
        }
        if o["reload"] == true { ed.a = b; table = after; nref = cur; ed.said.clear(); }
    }
    Ok(())
}
pub fn replay(file: &str, toc: bool) {
    let mut rep = Report::new();
    for c in lines(file) {
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep, toc) {
            let ops: Vec<&str> = c["steps"].as_array().unwrap().iter().map(|o| s(o, "op")).collect();
            rep.violation(&format!("edit:{k}:{}", ops[1]), format!("engine {:?} split {} {ops:?}: {m}", eng(i(&c, "eng")), c["split"]), &c);
        }
    }
    rep.finish();
}
