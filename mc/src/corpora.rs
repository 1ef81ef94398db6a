//! C20: corpora are independent of each other, export and import are inverse, nothing is written elsewhere.
use crate::cs;
use crate::faultfs::{self, Image, Torn, image, jailed};
use crate::model::*;
use crate::run::*;
use crate::{must, must_eq};
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{ExportFormat, ImportFormat, ResultOrder};
use graphannis::errors::GraphAnnisError;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::update::UpdateEvent;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

/// Directory of a case: the storage is in `a/b/db`, results of exports are in `a/b/out`, and nothing else may change
struct Area {
    tmp: tempfile::TempDir,
    before: Image,
}
impl Area {
    fn new() -> Result<Area, String> {
        let tmp = tmpdir("corpora");
        let d = tmp.path();
        es(std::fs::create_dir_all(d.join("a/b/out")), "mkdir")?;
        es(std::fs::create_dir_all(d.join("a/b/in")), "mkdir")?;
        for f in ["sentinel", "a/sentinel", "a/b/sentinel", "a/b/in/data.txt"] {
            es(std::fs::write(d.join(f), f), "write")?;
        }
        let mut a = Area { tmp, before: Image::new() };
        a.seal();
        Ok(a)
    }
    fn path(&self, p: &str) -> PathBuf {
        self.tmp.path().join("a/b").join(p)
    }
    fn open(&self) -> Result<CorpusStorage, String> {
        cs::open(&self.path("db"), false)
    }
    fn rest(&self) -> Image {
        image(self.tmp.path()).into_iter().filter(|(p, _)| !p.starts_with("a/b/db") && !p.starts_with("a/b/out")).collect()
    }
    /// the files which must stay as they are
    fn seal(&mut self) {
        self.before = self.rest();
    }
    fn check(&self) -> Result<(), String> {
        let now = self.rest();
        for (p, c) in &now {
            must!(self.before.get(p) == Some(c), "file {p:?} outside of the database and the target was written");
        }
        for p in self.before.keys() {
            must!(now.contains_key(p), "file {p:?} outside of the database was deleted");
        }
        Ok(())
    }
    /// Run with all writing restricted to this directory
    fn run(&self, f: impl FnOnce(&Area) -> Result<(), String>) -> Result<(), String> {
        let (r, escaped) = jailed(self.tmp.path(), || guarded(|| f(self)));
        if let Some(e) = escaped.first() {
            return Err(format!("attempt to change a file outside of the database and the target: {}", e.replace(&*self.tmp.path().to_string_lossy(), "DIR")));
        }
        self.check()?;
        r
    }
}

fn events(n: &str) -> Vec<UpdateEvent> {
    vec![add_node(n, "node"), add_label(n, "ns", "k", "v"), add_node("shared", "node"), add_edge(n, "shared", &comp("Pointing", "l", "p")), add_elabel(n, "shared", &comp("Pointing", "l", "p"), "n", "e", n)]
}

fn list(s: &CorpusStorage) -> Result<BTreeSet<String>, String> {
    let l = es(s.list(), "list")?;
    let n = l.len();
    let r: BTreeSet<String> = l.into_iter().map(|i| i.name).collect();
    must_eq!(r.len(), n, "list contains a corpus twice");
    Ok(r)
}

/// the nodes added with `events`
fn nodes(s: &CorpusStorage, c: &str) -> Result<BTreeSet<String>, String> {
    let v = es(s.find(cs::query(&[c], "ns:k=\"v\" ->p[n:e=/.*/] node"), 0, None, ResultOrder::Normal), "find")?;
    Ok(v.into_iter().map(|x| x.strip_prefix("ns::k::").unwrap_or(&x).strip_suffix(" shared").unwrap_or("?").to_string()).collect())
}

fn is(s: &CorpusStorage, exp: &BTreeMap<String, BTreeSet<String>>, what: &str) -> Result<(), String> {
    must_eq!(list(s)?, exp.keys().cloned().collect::<BTreeSet<_>>(), "{what}: list of corpora");
    for (c, n) in exp {
        must_eq!(&nodes(s, c).map_err(|e| format!("{what}: {e}"))?, n, "{what}: content of corpus {c:?}");
    }
    Ok(())
}

fn import(s: &CorpusStorage, p: &Path, name: Option<&str>, disk: bool, over: bool) -> Result<String, GraphAnnisError> {
    s.import_from_fs(p, ImportFormat::GraphML, name.map(|n| n.to_string()), disk, over, |_| {})
}
fn zip_import(s: &CorpusStorage, p: &Path, over: bool) -> Result<BTreeSet<String>, String> {
    let f = es(std::fs::File::open(p), "open zip")?;
    Ok(es(s.import_all_from_zip(f, false, over, |_| {}), "import_all_from_zip")?.into_iter().collect())
}

fn graphml_files(d: &Path) -> Vec<PathBuf> {
    image(d).into_iter().filter(|(p, c)| c.is_some() && p.to_string_lossy().ends_with(".graphml")).map(|(p, _)| d.join(p)).collect()
}

fn set(x: &[&str]) -> BTreeSet<String> {
    x.iter().map(|x| x.to_string()).collect()
}

fn names() -> Vec<&'static str> {
    vec![
        "c", "C", "a/b", "a%2Fb", "a%2fb", "..", ".", "", "%2E", "%2E%2E", "%", "%25", "%tmp", "...", "a b", " a", "ä", "a\\b", "db.lock", "../x", "a.", ".x", ":", "*", "backup", "files", "a\nb", "x.graphml", "/mcdb-abs", "a", "b", "current",
        "a\0b", "<&>", "\"'", "a/../b", "corpus.annis",
    ]
}

fn pair(x: &str, y: &str, disk: bool) -> Result<(), String> {
    let a = Area::new()?;
    a.run(|a| {
        let s = a.open()?;
        let mut exp = BTreeMap::new();
        must!(es(s.create_empty_corpus(x, disk), "create_empty_corpus")?, "first corpus exists before it is created");
        es(s.apply_update(x, &mut update(&events("nx"))?), "apply_update")?;
        exp.insert(x.to_string(), set(&["nx"]));
        is(&s, &exp, "after creating the first")?;
        // created by the update
        if disk {
            must!(es(s.create_empty_corpus(y, !disk), "create_empty_corpus")?, "second corpus exists before it is created");
        }
        es(s.apply_update(y, &mut update(&events("ny"))?), "apply_update")?;
        exp.insert(y.to_string(), set(&["ny"]));
        is(&s, &exp, "after creating both")?;
        must!(!es(s.create_empty_corpus(x, disk), "create_empty_corpus")?, "created twice");
        // export
        es(s.export_to_fs(&[y], &a.path("out/f.graphml"), ExportFormat::GraphML), "export file")?;
        es(s.export_to_fs(&[y], &a.path("out/d"), ExportFormat::GraphMLDirectory), "export directory")?;
        es(s.export_to_fs(&[x, y], &a.path("out/d2"), ExportFormat::GraphMLDirectory), "export both as directory")?;
        es(s.export_to_fs(&[y], &a.path("out/1.zip"), ExportFormat::GraphMLZip), "export zip")?;
        es(s.export_to_fs(&[x, y], &a.path("out/2.zip"), ExportFormat::GraphMLZip), "export both as zip")?;
        must_eq!(graphml_files(&a.path("out/d")).len(), 1, "exported files");
        must_eq!(graphml_files(&a.path("out/d2")).len(), 2, "exported files of both");
        is(&s, &exp, "after the exports")?;
        // delete
        must!(es(s.delete(x), "delete")?, "corpus to delete not found");
        must!(!es(s.delete(x), "delete")?, "deleted twice");
        exp.remove(x);
        is(&s, &exp, "after deleting the first")?;
        // import: the second one is refused
        for f in graphml_files(&a.path("out/d2")) {
            match import(&s, &f, None, disk, false) {
                Ok(n) => must_eq!(n.as_str(), x, "name of the imported corpus"),
                Err(GraphAnnisError::CorpusExists(n)) => must_eq!(n.as_str(), y, "name of the existing corpus"),
                Err(e) => return Err(format!("import returned error: {e}")),
            }
        }
        exp.insert(x.to_string(), set(&["nx"]));
        is(&s, &exp, "after importing the first")?;
        // replace
        must_eq!(es(import(&s, &a.path("out/f.graphml"), Some(x), !disk, true), "import")?.as_str(), x, "name");
        exp.insert(x.to_string(), set(&["ny"]));
        is(&s, &exp, "after replacing the first")?;
        must_eq!(zip_import(&s, &a.path("out/2.zip"), true)?, set(&[x, y]), "names of imported");
        exp.insert(x.to_string(), set(&["nx"]));
        is(&s, &exp, "after replacing both")?;
        must!(es(s.delete(y), "delete")?, "corpus to delete not found");
        must_eq!(zip_import(&s, &a.path("out/1.zip"), false)?, set(&[y]), "names of imported");
        is(&s, &exp, "after importing the second")?;
        es(s.apply_update(y, &mut update(&events("n2"))?), "apply_update")?;
        exp.get_mut(y).unwrap().insert("n2".into());
        es(s.unload(x), "unload")?;
        is(&s, &exp, "after updating the second")?;
        drop(s);
        let s = a.open()?;
        is(&s, &exp, "after reopening")?;
        must!(es(s.delete(y), "delete")?, "corpus to delete not found");
        must!(es(s.delete(x), "delete")?, "corpus to delete not found");
        is(&s, &BTreeMap::new(), "after deleting both")
    })
}

/// A name which does not exist or may not be possible: everything with it fails or works without consequences for others
fn single(x: &str) -> Result<(), String> {
    let a = Area::new()?;
    a.run(|a| {
        let s = a.open()?;
        es(s.apply_update("other", &mut update(&events("n"))?), "apply_update")?;
        let exp = BTreeMap::from([("other".to_string(), set(&["n"]))]);
        let calls = |s: &CorpusStorage| -> Result<(), String> {
            must!(matches!(s.delete(x), Ok(false) | Err(_)), "deleted a corpus which does not exist");
            is(s, &exp, "after deleting a corpus which does not exist")?;
            must!(s.count(cs::query(&[x], "node")).is_err(), "counted in a corpus which does not exist");
            must!(s.preload(x).is_err(), "loaded a corpus which does not exist");
            es(s.unload(x), "unload")?;
            must!(s.info(x).is_ok() || x.len() > 250, "information about a corpus which does not exist returned error");
            let existing = a.path("out/existing");
            for f in [ExportFormat::GraphML, ExportFormat::GraphMLDirectory, ExportFormat::GraphMLZip] {
                es(std::fs::write(&existing, "content"), "write")?;
                let dir = matches!(f, ExportFormat::GraphMLDirectory);
                for c in [vec![x], vec!["other", x]] {
                    let t = if dir { a.path("out/newdir") } else { existing.clone() };
                    must!(s.export_to_fs(&c, &t, f.clone()).is_err(), "exported a corpus which does not exist");
                    must_eq!(std::fs::read_to_string(&existing).unwrap_or_default().as_str(), "content", "existing file after failed export of {c:?}");
                    must!(!dir || graphml_files(&t).is_empty(), "directory after failed export of {c:?}");
                }
                is(s, &exp, "after export")?;
            }
            Ok(())
        };
        calls(&s)?;
        if x.len() > 250 {
            let _ = s.create_empty_corpus(x, false);
            is(&s, &exp, "after creating an impossible corpus")?;
            let _ = s.apply_update(x, &mut update(&events("n"))?);
            is(&s, &exp, "after updating an impossible corpus")?;
            es(s.export_to_fs(&["other"], &a.path("out/f.graphml"), ExportFormat::GraphML), "export file")?;
            for over in [false, true] {
                must!(import(&s, &a.path("out/f.graphml"), Some(x), false, over).is_err(), "imported as an impossible corpus");
                is(&s, &exp, "after importing as an impossible corpus")?;
            }
            calls(&s)?;
        }
        drop(s);
        let s = a.open()?;
        is(&s, &exp, "after reopening")?;
        calls(&s)
    })
}

// ---- linked files -------------------------------------------------------

fn file_event(node: &str, link: &str) -> Vec<UpdateEvent> {
    vec![add_node(node, "file"), add_label(node, "annis", "file", link)]
}

/// the content of the linked file of each node, found with the reference in the corpus
fn files(a: &Area, s: &CorpusStorage, dir: &str) -> Result<BTreeMap<String, String>, String> {
    let g = es(s.subgraph_for_query(dir, "annis:node_type=\"file\"", graphannis::corpusstorage::QueryLanguage::AQL, None), "subgraph_for_query")?;
    let m = dump(&g, &crate::updates::no_skip)?;
    let mut r = BTreeMap::new();
    for (n, l) in &m.nodes {
        if let Some(f) = l.get(&q("annis", "file")) {
            let p = a.path("db").join(dir).join("files").join(f);
            r.insert(n.clone(), std::fs::read_to_string(p).unwrap_or("(missing)".into()));
        }
    }
    Ok(r)
}

/// corpus with the given file nodes: (node name, link), imported, exported in each format and imported again
fn linked(nodes: &[(&str, &str)], rename: bool) -> Result<(), String> {
    let mut a = Area::new()?;
    let mut g = es(graphannis::AnnotationGraph::with_default_graphstorages(false), "new")?;
    let mut evs = vec![];
    let mut exp = BTreeMap::new();
    for (n, link) in nodes {
        evs.extend(file_event(n, link));
        exp.insert(n.to_string(), format!("data of {link}"));
    }
    es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
    let f = es(std::fs::File::create(a.path("in/c.graphml")), "create")?;
    es(graphannis_core::graph::serialization::graphml::export(&g, None, f, |_| {}), "export")?;
    for (_, link) in nodes {
        let p = a.path("in").join(link);
        es(std::fs::create_dir_all(p.parent().unwrap()), "mkdir")?;
        es(std::fs::write(&p, format!("data of {link}")), "write")?;
    }
    a.seal();
    a.run(|a| {
        let s = a.open()?;
        must_eq!(es(import(&s, &a.path("in/c.graphml"), None, false, false), "import")?.as_str(), "c", "name");
        must_eq!(&files(a, &s, "c")?, &exp, "linked files after import");
        if rename {
            let (old, new) = (nodes[0].0, "renamed");
            es(s.apply_update("c", &mut update(&[add_label(old, "annis", "node_name", new)])?), "rename")?;
            let v = exp.remove(old).unwrap();
            exp.insert(new.into(), v);
            must_eq!(&files(a, &s, "c")?, &exp, "linked files after renaming");
        }
        es(s.export_to_fs(&["c"], &a.path("out/1"), ExportFormat::GraphMLDirectory), "export")?;
        es(s.export_to_fs(&["c", "c"], &a.path("out/2"), ExportFormat::GraphMLDirectory), "export")?;
        es(std::fs::create_dir_all(a.path("out/3")), "mkdir")?;
        es(s.export_to_fs(&["c"], &a.path("out/3/x.graphml"), ExportFormat::GraphML), "export")?;
        es(s.export_to_fs(&["c"], &a.path("out/4.zip"), ExportFormat::GraphMLZip), "export")?;
        must!(es(s.delete("c"), "delete")?, "not deleted");
        for (f, name) in [("out/1/c.graphml", "c1"), ("out/2/c/c.graphml", "c2"), ("out/3/x.graphml", "c3")] {
            es(import(&s, &a.path(f), Some(name), false, false), "import")?;
            must_eq!(&files(a, &s, name)?, &exp, "linked files after export and import of {f}");
        }
        must_eq!(zip_import(&s, &a.path("out/4.zip"), false)?, set(&["c"]), "names");
        must_eq!(&files(a, &s, "c")?, &exp, "linked files after export to a ZIP file and import");
        must_eq!(es(import(&s, &a.path("out/1/c.graphml"), None, true, true), "import")?.as_str(), "c", "name");
        must_eq!(&files(a, &s, "c")?, &exp, "linked files after replacing the corpus");
        Ok(())
    })
}

// ---- histories ----------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum O {
    Create,
    Update,
    Delete,
    New,
    Over,
    BadNew(u8),
    BadOver(u8),
    File,
    Dir,
    Zip,
    FromFile,
    FromDir(bool),
    FromZip(bool),
    Reopen,
}
use O::*;

fn histories(run: &Run) -> Vec<Vec<(O, usize)>> {
    let one: Vec<O> = vec![Create, Update, Delete, New, Over, BadNew(0), BadOver(0), BadOver(1), BadOver(2), BadOver(3), File, Dir, Zip, FromFile, FromDir(true), FromZip(false), FromZip(true), Reopen];
    let mut all: Vec<(O, usize)> = vec![];
    for o in &one {
        all.push((*o, 0));
        if !matches!(o, Reopen | Zip | Dir | FromZip(_) | FromDir(_)) {
            all.push((*o, 1));
        }
    }
    let mut r = vec![];
    for a in &all {
        for b in &all {
            r.push(vec![*a, *b]);
            for c in all.iter().filter(|_| a.1 == 0) {
                r.push(vec![*a, *b, *c]);
                if run.q(false, true) && matches!(a.0, Create | Update | New) {
                    for d in &all {
                        r.push(vec![*a, *b, *c, *d]);
                    }
                }
            }
        }
    }
    r
}

type World = BTreeMap<String, BTreeSet<String>>;

fn bad(a: &Area, k: u8) -> PathBuf {
    match k {
        0 => a.path("in/missing.graphml"),
        1 => a.path("in/cut.graphml"),
        2 => a.path("in/config.graphml"),
        _ => a.path("in/link.graphml"),
    }
}

fn history(h: &[(O, usize)], t: &Templates, names: &[&str; 2]) -> Result<u64, String> {
    let mut a = Area::new()?;
    es(crate::conc::copy_dir(t.dir.path(), &a.path("in")), "copy")?;
    a.seal();
    let mut calls = 0;
    a.run(|a| {
        let mut s = a.open()?;
        let mut w = World::new();
        let mut saved: BTreeMap<&str, World> = BTreeMap::new();
        for (i, (o, k)) in h.iter().enumerate() {
            let c = names[*k];
            let what = format!("after call {i} {o:?}");
            calls += 1;
            match o {
                Create => {
                    let r = es(s.create_empty_corpus(c, i % 2 == 1), "create_empty_corpus")?;
                    must_eq!(r, !w.contains_key(c), "result of create");
                    w.entry(c.into()).or_default();
                }
                Update => {
                    let n = format!("u{i}");
                    es(s.apply_update(c, &mut update(&events(&n))?), "apply_update")?;
                    w.entry(c.into()).or_default().insert(n);
                }
                Delete => must_eq!(es(s.delete(c), "delete")?, w.remove(c).is_some(), "result of delete"),
                New | Over => {
                    let over = *o == Over;
                    match import(&s, &a.path("in/good.graphml"), Some(c), i % 2 == 1, over) {
                        Ok(n) => {
                            must_eq!(n.as_str(), c, "name");
                            must!(over || !w.contains_key(c), "existing corpus was replaced");
                            w.insert(c.into(), set(&["good"]));
                        }
                        Err(GraphAnnisError::CorpusExists(_)) if !over && w.contains_key(c) => {}
                        Err(e) => return Err(format!("import: {e}")),
                    }
                }
                BadNew(b) | BadOver(b) => {
                    let r = import(&s, &bad(a, *b), Some(c), false, matches!(o, BadOver(_)));
                    must!(r.is_err(), "import of a broken file {b} returned {r:?}");
                }
                File => {
                    let f = a.path(&format!("out/{k}.graphml"));
                    let before = std::fs::read(&f).ok();
                    let r = s.export_to_fs(&[c], &f, ExportFormat::GraphML);
                    must_eq!(r.is_ok(), w.contains_key(c), "export");
                    if r.is_err() {
                        must!(std::fs::read(&f).ok() == before, "file changed by failed export");
                    } else {
                        saved.insert(["f0", "f1"][*k], w.iter().filter(|(n, _)| *n == c).map(|(a, b)| (a.clone(), b.clone())).collect());
                    }
                }
                Dir | Zip => {
                    let (t, f) = if *o == Dir { (a.path("out/d"), ExportFormat::GraphMLDirectory) } else { (a.path("out/z.zip"), ExportFormat::GraphMLZip) };
                    let before = image(&a.path("out"));
                    let r = s.export_to_fs(&names[..], &t, f);
                    must_eq!(r.is_ok(), names.iter().all(|c| w.contains_key(*c)), "export of both");
                    if r.is_err() {
                        must!(image(&a.path("out")) == before, "target changed by failed export");
                    } else {
                        saved.insert(if *o == Dir { "d" } else { "z" }, w.clone());
                    }
                }
                FromFile => {
                    let r = import(&s, &a.path(&format!("out/{k}.graphml")), Some(c), i % 2 == 1, true);
                    match saved.get(["f0", "f1"][*k]) {
                        Some(x) => {
                            es(r, "import")?;
                            w.extend(x.clone());
                        }
                        None => must!(r.is_err(), "imported a missing file"),
                    }
                }
                FromDir(over) => {
                    for f in graphml_files(&a.path("out/d")) {
                        let n = es(import(&s, &f, None, false, *over), "import")?;
                        let x = &saved["d"];
                        must!(x.contains_key(&n), "imported corpus {n:?} was not exported");
                        w.insert(n.clone(), x[&n].clone());
                    }
                }
                FromZip(over) => match saved.get("z") {
                    Some(x) if *over || !x.keys().any(|k| w.contains_key(k)) => {
                        must_eq!(zip_import(&s, &a.path("out/z.zip"), *over)?, x.keys().cloned().collect::<BTreeSet<_>>(), "imported");
                        w.extend(x.clone());
                    }
                    Some(x) => {
                        must!(zip_import(&s, &a.path("out/z.zip"), *over).is_err(), "existing corpora replaced");
                        // the ones before the first existing one are imported
                        for n in list(&s)? {
                            if !w.contains_key(&n) {
                                must!(x.contains_key(&n), "imported corpus {n:?} was not exported");
                                w.insert(n.clone(), x[&n].clone());
                            }
                        }
                    }
                    None => must!(zip_import(&s, &a.path("out/z.zip"), *over).is_err(), "imported missing ZIP file"),
                },
                Reopen => {
                    drop(s);
                    s = a.open()?;
                }
            }
            is(&s, &w, &what)?;
            // never half a corpus
            if i + 1 == h.len() {
                for c in names {
                    if !w.contains_key(*c) {
                        must!(s.count(cs::query(&[c], "node")).is_err(), "{what}: query on a missing corpus worked");
                    }
                }
            }
        }
        drop(s);
        is(&a.open()?, &w, "after reopening")
    })?;
    Ok(calls)
}

struct Templates {
    dir: tempfile::TempDir,
}
fn templates() -> Result<Templates, String> {
    let dir = tmpdir("corpora");
    let mut g = es(graphannis::AnnotationGraph::with_default_graphstorages(false), "new")?;
    es(g.apply_update(&mut update(&events("good"))?, |_| {}), "apply_update")?;
    let write = |name: &str, g: &graphannis::AnnotationGraph, config: Option<&str>| -> Result<(), String> {
        let f = es(std::fs::File::create(dir.path().join(name)), "create")?;
        es(graphannis_core::graph::serialization::graphml::export(g, config, f, |_| {}), "export")
    };
    write("good.graphml", &g, None)?;
    write("config.graphml", &g, Some("[view\nbroken = ="))?;
    let text = std::fs::read_to_string(dir.path().join("good.graphml")).unwrap();
    es(std::fs::write(dir.path().join("cut.graphml"), &text[..text.len() / 2]), "write")?;
    // one linked file cannot be stored because it is below another one
    es(g.apply_update(&mut update(&[file_event("f", "data.txt"), file_event("f/g", "data.txt")].concat())?, |_| {}), "apply_update")?;
    write("link.graphml", &g, None)?;
    es(std::fs::write(dir.path().join("data.txt"), "data"), "write")?;
    Ok(Templates { dir })
}

// ---- faults -------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum F {
    FCreate(bool),
    FUpdate,
    FNew(bool),
    FOver(bool),
    FDelete,
    FFile,
    FDir,
    FZip,
    FFromZip(bool),
}
use F::*;

/// The file system operation `k` of the call fails. None if it has not that many.
fn fault(f: F, exists: bool, k: u64, all: bool, t: &Templates) -> Result<bool, String> {
    let mut a = Area::new()?;
    es(crate::conc::copy_dir(t.dir.path(), &a.path("in")), "copy")?;
    a.seal();
    let mut more = false;
    a.run(|a| {
        let mut w = World::new();
        let s = a.open()?;
        es(s.apply_update("other", &mut update(&events("n"))?), "apply_update")?;
        w.insert("other".into(), set(&["n"]));
        es(import(&s, &a.path("in/good.graphml"), Some("zipped"), false, false), "import")?;
        es(s.export_to_fs(&["zipped"], &a.path("out/z-in.zip"), ExportFormat::GraphMLZip), "zip")?;
        es(s.delete("zipped"), "delete")?;
        let c = if matches!(f, FFromZip(_)) { "zipped" } else { "c" };
        if exists {
            es(s.apply_update(c, &mut update(&events("old"))?), "apply_update")?;
            w.insert(c.into(), set(&["old"]));
        }
        drop(s);
        let s = a.open()?;
        if exists {
            // loaded
            is(&s, &w, "before")?;
        }
        let g = faultfs::track(&a.path(""), Torn::None, Box::new(|_, _, _| {}));
        g.with(|t| {
            t.fail_from = Some(k);
            t.fail_all = all;
        });
        let out = a.path("out");
        let r: Result<bool, GraphAnnisError> = match f {
            FCreate(d) => s.create_empty_corpus(c, d),
            FUpdate => s.apply_update(c, &mut update(&events("new"))?).map(|_| true),
            FNew(d) | FOver(d) => import(&s, &a.path("in/good.graphml"), Some(c), d, matches!(f, FOver(_))).map(|_| true),
            FDelete => s.delete(c),
            FFile => s.export_to_fs(&[c], &out.join("f.graphml"), ExportFormat::GraphML).map(|_| true),
            FDir => s.export_to_fs(&[c, "other"], &out.join("d"), ExportFormat::GraphMLDirectory).map(|_| true),
            FZip => s.export_to_fs(&[c, "other"], &out.join("z.zip"), ExportFormat::GraphMLZip).map(|_| true),
            FFromZip(over) => s.import_all_from_zip(es(std::fs::File::open(a.path("out/z-in.zip")), "open")?, false, over, |_| {}).map(|_| true),
        };
        // let the background writer finish before the device works again
        if all {
            drop(s);
            more = g.with(|t| t.ops > k);
            drop(g);
        } else {
            more = g.with(|t| t.ops > k);
            drop(s);
            drop(g);
        }
        let s = a.open()?;
        let mut new = w.clone();
        match f {
            FCreate(_) => {
                new.entry(c.into()).or_default();
            }
            FUpdate => {
                new.entry(c.into()).or_default().insert("new".into());
            }
            FNew(_) if exists => {}
            FFromZip(false) if exists => {}
            FNew(_) | FOver(_) | FFromZip(_) => {
                new.insert(c.into(), set(&["good"]));
            }
            FDelete => {
                new.remove(c);
            }
            FFile | FDir | FZip => {}
        }
        match &r {
            Ok(_) => is(&s, &new, "after a call which returned no error")?,
            Err(e) => {
                // an update creates the corpus first
                let mut allowed = vec![&w, &new];
                let mut created = w.clone();
                if f == FUpdate {
                    created.entry(c.into()).or_default();
                    allowed.push(&created);
                }
                let l = list(&s)?;
                must!(allowed.iter().any(|x| x.keys().cloned().collect::<BTreeSet<_>>() == l), "corpora {l:?} after a call which failed with {e}");
                let x = l.iter().map(|c| Ok((c.clone(), nodes(&s, c).map_err(|x| format!("{c:?}: {x} after a call which failed with {e}"))?))).collect::<Result<World, String>>()?;
                if matches!(f, FOver(_) | FFromZip(_) | FNew(_)) {
                    must_eq!(x, w, "corpora after a call which failed with {e}");
                }
                must!(allowed.contains(&&x), "corpora {x:?} after a call which failed with {e}");
            }
        }
        if matches!(f, FFile | FDir | FZip) && r.is_ok() {
            for c in [c, "other"] {
                es(s.delete(c), "delete")?;
            }
            let mut n = BTreeSet::new();
            match f {
                FFile => {
                    n.insert(es(import(&s, &out.join("f.graphml"), Some(c), false, false), "import of the export")?);
                    new.remove("other");
                }
                FDir => {
                    for f in graphml_files(&out.join("d")) {
                        n.insert(es(import(&s, &f, None, false, false), "import of the export")?);
                    }
                }
                _ => n = zip_import(&s, &out.join("z.zip"), false)?,
            }
            return is(&s, &new, "after importing the export");
        }
        // everything works afterwards
        es(s.apply_update(c, &mut update(&events("later"))?), "apply_update after the failed call")?;
        must!(nodes(&s, c)?.contains("later"), "later update missing");
        must_eq!(nodes(&s, "other")?, set(&["n"]), "other corpus");
        Ok(())
    })?;
    Ok(more)
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every pair of names of an alphabet with separators, escapes, dots, the names of internal files and control characters through creating, updating, exporting (three formats), deleting, importing, replacing and reopening; every history up to the depth over these calls and failing ones; every pair of names of linked files; every truncation of a GraphML and a ZIP file; every file system operation of each call failing. List, content, linked files and everything outside of the database and the target are compared with the model; writing anywhere else is caught by interposed system calls. distinct = distinct name pairs, contents and results".into();
    let ns = names();
    for x in ns.iter().map(|x| x.to_string()).chain(["ä".repeat(130), "a/".repeat(200)]) {
        run.case(
            || format!("single {x:?}"),
            || {
                run.trans(40);
                single(&x)
            },
        );
    }
    let mut pairs = vec![];
    for (i, x) in ns.iter().enumerate() {
        for (j, y) in ns.iter().enumerate() {
            if i != j {
                pairs.push((*x, *y, (i + j) % 2 == 1));
                if run.q(false, true) {
                    pairs.push((*x, *y, (i + j) % 2 == 0));
                }
            }
        }
    }
    run.par_n(8, 4, pairs.into_iter(), |(x, y, disk)| {
        run.case(
            || format!("pair {x:?} {y:?} {disk}"),
            || {
                run.trans(60);
                run.state(&(x, y));
                pair(x, y, disk)
            },
        )
    });
    // linked files
    let fnames = ["f.txt", "c/f.txt", "c/d/f.txt", "../evil", "c/../evil", "/mcdb-evil", "c//f", "c/./f", "..", ".", "", "c/", "ü ü", "a%2Fb", "%2F", "a:b", "x\\y", "graphml", "sentinel", "corpus-config.toml"];
    let links = ["l.txt", "sub/l.txt", "ü.txt"];
    let mut files: Vec<(Vec<(&str, &str)>, bool)> = vec![];
    for x in fnames {
        for l in links {
            files.push((vec![(x, l)], false));
            files.push((vec![(x, l)], true));
        }
        for y in fnames {
            let below = |a: &str, b: &str| a.strip_prefix(b).is_some_and(|r| r.starts_with('/'));
            if x < y && !below(x, y) && !below(y, x) {
                files.push((vec![(x, "l.txt"), (y, "m.txt")], false));
                files.push((vec![(y, "l.txt"), (x, "l.txt")], true));
            }
        }
    }
    run.par_n(8, 4, files.into_iter(), |(f, rename)| {
        run.case(
            || format!("linked {f:?} rename {rename}"),
            || {
                run.trans(12);
                run.state(&f);
                linked(&f, rename)
            },
        )
    });
    let t = match templates() {
        Ok(t) => t,
        Err(e) => return run.violation("templates", &e),
    };
    // broken files
    let good = std::fs::read(t.dir.path().join("good.graphml")).unwrap();
    let trimmed = good.trim_ascii_end().len();
    let mut broken: Vec<(usize, bool)> = (0..good.len()).map(|i| (i, true)).collect();
    broken.extend((0..good.len()).map(|i| (i, false)));
    run.par_n(8, 16, broken.into_iter(), |(i, cut)| {
        run.case(
            || format!("{} {i}", if cut { "cut at" } else { "without byte" }),
            || {
                let a = Area::new()?;
                let f = a.path("out/x.graphml");
                let mut text = good.clone();
                if cut {
                    text.truncate(i);
                } else {
                    text.remove(i);
                }
                es(std::fs::write(&f, text), "write")?;
                a.run(|a| {
                    let s = a.open()?;
                    es(s.apply_update("c", &mut update(&events("n"))?), "apply_update")?;
                    let w = World::from([("c".to_string(), set(&["n"]))]);
                    let r = import(&s, &f, Some("d"), false, false);
                    run.trans(2);
                    if r.is_err() {
                        is(&s, &w, "after failed import")?;
                        must!(import(&s, &f, Some("c"), true, true).is_err(), "worked when repeated");
                        is(&s, &w, "after failed import over an existing corpus")
                    } else {
                        must!(!cut || i + 1 >= trimmed, "imported an incomplete file ({i} of {trimmed} bytes): {}", String::from_utf8_lossy(&good[i.saturating_sub(60)..i]));
                        must_eq!(list(&s)?, set(&["c", "d"]), "corpora");
                        es(s.count(cs::query(&["d"], "node")), "count")?;
                        must_eq!(nodes(&s, "c")?, set(&["n"]), "other corpus");
                        Ok(())
                    }
                })
            },
        )
    });
    let zip = {
        let r = guarded(|| {
            let a = Area::new()?;
            let s = a.open()?;
            es(import(&s, &t.dir.path().join("good.graphml"), Some("g"), false, false), "import")?;
            es(s.export_to_fs(&["g"], &a.path("out/g.zip"), ExportFormat::GraphMLZip), "export")?;
            es(std::fs::read(a.path("out/g.zip")), "read")
        });
        match r {
            Ok(z) => z,
            Err(e) => return run.violation("zip", &e),
        }
    };
    let mut broken: Vec<(usize, bool)> = (0..zip.len()).map(|i| (i, true)).collect();
    broken.extend((0..zip.len()).map(|i| (i, false)));
    run.par_n(8, 16, broken.into_iter(), |(i, cut)| {
        run.case(
            || format!("zip {} {i}", if cut { "cut at" } else { "with changed byte" }),
            || {
                let a = Area::new()?;
                let f = a.path("out/x.zip");
                let mut b = zip.clone();
                if cut {
                    b.truncate(i);
                } else {
                    b[i] ^= 0x21;
                }
                es(std::fs::write(&f, b), "write")?;
                a.run(|a| {
                    let s = a.open()?;
                    es(s.apply_update("c", &mut update(&events("n"))?), "apply_update")?;
                    run.trans(2);
                    let r = zip_import(&s, &f, false);
                    let l = list(&s)?;
                    if let Ok(x) = r {
                        must_eq!(x.into_iter().chain(["c".to_string()]).collect::<BTreeSet<_>>(), l, "corpora after import");
                    } else {
                        must_eq!(l, set(&["c"]), "corpora after failed import");
                    }
                    must_eq!(nodes(&s, "c")?, set(&["n"]), "other corpus");
                    Ok(())
                })
            },
        )
    });
    // failing operations
    let mut faults = vec![];
    for exists in [false, true] {
        for all in [false, true] {
            for f in [FCreate(false), FCreate(true), FUpdate, FNew(false), FNew(true), FOver(false), FOver(true), FFromZip(false), FFromZip(true), FDelete, FFile, FDir, FZip] {
                if exists || !matches!(f, FDelete | FFile | FDir | FZip) {
                    faults.push((f, exists, all));
                }
            }
        }
    }
    let points = std::sync::atomic::AtomicU64::new(0);
    run.par_n(8, 1, faults.into_iter(), |(f, exists, all)| {
        let mut k = 0;
        let mut more = true;
        while more && k < 400 {
            more = false;
            run.alive();
            run.case(
                || format!("fault {f:?} exists {exists} operation {k} {}", if all { "and all later" } else { "" }),
                || {
                    run.trans(1);
                    run.state(&(f, exists, k, all));
                    more = true;
                    more = fault(f, exists, k, all, &t)?;
                    Ok(())
                },
            );
            points.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            k += 1;
        }
    });
    run.note("failed_operations", points.into_inner());
    let hs = histories(run);
    run.note("histories", hs.len());
    run.par_n(8, 8, hs.into_iter(), |h| {
        run.case(
            || format!("history {h:?}"),
            || {
                let n = history(&h, &t, &["..", "a/b"])?;
                run.trans(n);
                run.state(&h);
                Ok(())
            },
        )
    });
    let _ = AnnotationComponentType::Pointing;
}
