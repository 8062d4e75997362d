//! Building the guest (the real portable-atomic code from /repo, compiled for each target) and
//! loading it into a simulated memory image.
use crate::elf;
use crate::mem::{Layout, Mem, LAYOUT16, LAYOUT32, LAYOUT_AVR};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Arch { X64, X32, X86, A64, Arm, Thumb, Rv64, Rv32, Msp430, Avr, S390x, Ppc64 }
impl Arch {
    pub fn word(self) -> u32 { match self { Arch::X64 | Arch::A64 | Arch::Rv64 | Arch::S390x | Arch::Ppc64 => 8, Arch::Msp430 | Arch::Avr => 2, _ => 4 } }
    pub fn layout(self) -> Layout { match self { Arch::Msp430 => LAYOUT16, Arch::Avr => LAYOUT_AVR, _ => LAYOUT32 } }
    pub fn name(self) -> &'static str { match self { Arch::X64 => "x86_64", Arch::X32 => "x86_64", Arch::X86 => "x86", Arch::A64 => "aarch64", Arch::Arm => "arm", Arch::Thumb => "thumb", Arch::Rv64 => "riscv64", Arch::Rv32 => "riscv32", Arch::Msp430 => "msp430", Arch::Avr => "avr", Arch::S390x => "s390x", Arch::Ppc64 => "powerpc64" } }
}
/// One guest build configuration.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub triple: &'static str,
    pub arch: Arch,
    /// build core from source (nightly)
    pub build_std: bool,
    pub nightly: bool,
    pub flags: &'static [&'static str],
    pub feats: &'static [&'static str],
    pub dbg: bool,
}
pub const STUBS: &[&str] = &["host_panic", "host_closure", "host_sink", "host_source", "host_cs_acquire", "host_cs_release", "host_getauxval", "host_hwprobe", "host_stat", "host_trap", "host_sysctlbyname", "host_sysctl", "host_getisax", "host_zxfeat", "host_procfeat", "host_elfaux", "host_sysprop", "host_dlsym"];
pub const STUB_STEP: u64 = 8;

pub fn root() -> PathBuf { PathBuf::from(std::env::var("PASIM_ROOT").unwrap_or_else(|_| "/verif".into())) }

pub struct Image {
    pub cfg: Cfg,
    pub syms: HashMap<String, u64>,
    pub lay: Layout,
    ram: Vec<u8>,
    text: (u64, u64),
    pub be: bool,
    pub funcs: Vec<(u64, String)>,
}
impl Image {
    pub fn stub(&self, name: &str) -> u64 { self.lay.stub + STUBS.iter().position(|s| *s == name).unwrap() as u64 * STUB_STEP }
    pub fn ret_magic(&self) -> u64 { self.lay.stub + 0xf8 }
    pub fn mem(&self) -> Mem {
        let mut m = Mem::new(self.lay);
        m.ram.copy_from_slice(&self.ram);
        m.text = self.text;
        m.be = self.be;
        m
    }
    /// Nearest symbol, for reports.
    pub fn whereis(&self, pc: u64) -> String {
        match self.funcs.partition_point(|f| f.0 <= pc) {
            0 => format!("{pc:#x}"),
            i => format!("{}+{:#x}", self.funcs[i - 1].1, pc - self.funcs[i - 1].0),
        }
    }
}
fn home_rustup() -> PathBuf { std::env::var("RUSTUP_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(std::env::var("HOME").unwrap_or("/root".into())).join(".rustup")) }
fn find_lld() -> Result<PathBuf, String> {
    let base = home_rustup().join("toolchains");
    let mut c: Vec<PathBuf> = std::fs::read_dir(&base).map_err(|e| format!("{base:?}: {e}"))?.flatten().map(|e| e.path().join("lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld")).filter(|p| p.exists()).collect();
    c.sort();
    c.into_iter().next().ok_or("rust-lld not found".into())
}
/// An installed non-nightly toolchain that has a prebuilt core for the target.
fn toolchain_for(triple: &str) -> Option<String> {
    let mut c: Vec<String> = std::fs::read_dir(home_rustup().join("toolchains")).ok()?.flatten().filter(|e| e.path().join("lib/rustlib").join(triple).join("lib").exists()).filter_map(|e| e.file_name().into_string().ok()).filter(|n| !n.starts_with("nightly")).collect();
    c.sort();
    c.pop()
}
fn run(c: &mut Command, what: &str) -> Result<(), String> {
    let o = c.output().map_err(|e| format!("{what}: {e}"))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let tail: Vec<&str> = e.lines().rev().take(40).collect();
        return Err(format!("{what} failed:\n{}", tail.into_iter().rev().collect::<Vec<_>>().join("\n")));
    }
    Ok(())
}
/// A built-in target, or one described in guest/targets (an ELF flavour of a target whose object format is not ELF).
fn spec_of(triple: &str) -> String {
    let p = root().join("guest/targets").join(format!("{triple}.json"));
    if p.exists() { p.to_string_lossy().into_owned() } else { triple.to_string() }
}
/// Builds core once per target (on AVR: per processor) that has no prebuilt standard library.
fn sysroot(cfg: &Cfg) -> Result<PathBuf, String> {
    let triple = cfg.triple;
    let cpu = if cfg.arch == Arch::Avr { cfg.flags.iter().find(|f| f.contains("target-cpu")).copied().unwrap_or("") } else { "" };
    let tag = if cpu.is_empty() { triple.to_string() } else { format!("{triple}-{}", cpu.rsplit('=').next().unwrap()) };
    static LOCK: Mutex<Vec<(String, Arc<Mutex<()>>)>> = Mutex::new(vec![]);
    let l = { let mut v = LOCK.lock().unwrap(); match v.iter().find(|x| x.0 == tag) { Some(x) => x.1.clone(), None => { let m = Arc::new(Mutex::new(())); v.push((tag.clone(), m.clone())); m } } };
    let _g = l.lock();
    let dir = root().join("build/sysroot").join(&tag);
    let done = dir.join("done");
    if done.exists() { return Ok(dir); }
    let proj = root().join("build/sysroot-src").join(&tag);
    std::fs::create_dir_all(proj.join("src")).map_err(|e| e.to_string())?;
    std::fs::write(proj.join("Cargo.toml"), "[package]\nname = \"sr\"\nversion = \"0.0.0\"\nedition = \"2021\"\n[lib]\ncrate-type = [\"rlib\"]\n[profile.release]\npanic = \"abort\"\nopt-level = 3\ndebug = false\n[workspace]\n").map_err(|e| e.to_string())?;
    std::fs::write(proj.join("src/lib.rs"), "#![no_std]\n").map_err(|e| e.to_string())?;
    let mut c = Command::new("cargo");
    c.args(["+nightly", "build", "--release", "--offline", "-Zbuild-std=core,compiler_builtins", "--target", &spec_of(triple)]);
    if spec_of(triple).ends_with(".json") { c.arg("-Zjson-target-spec"); }
    let tmp = root().join("build/sysroot-tmp").join(&tag);
    c.env("CARGO_TARGET_DIR", &tmp).env("RUSTFLAGS", format!("-Zthreads=4 -C relocation-model=static {cpu}")).env_remove("RUSTC_WRAPPER").current_dir(&proj);
    run(&mut c, &format!("building core for {triple}"))?;
    let lib = dir.join("lib/rustlib").join(triple).join("lib");
    std::fs::create_dir_all(&lib).map_err(|e| e.to_string())?;
    let mut q = vec![tmp.join(triple)];
    while let Some(d) = q.pop() {
        for e in std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten() {
            let n = e.file_name().into_string().unwrap_or_default();
            if e.path().is_dir() { q.push(e.path()); }
            else if (n.ends_with(".rlib") || n.ends_with(".rmeta")) && !n.starts_with("libsr") { std::fs::copy(e.path(), lib.join(&n)).map_err(|e| e.to_string())?; }
        }
    }
    std::fs::write(done, "").map_err(|e| e.to_string())?;
    Ok(dir)
}

pub fn build(cfg: &Cfg) -> Result<Image, String> {
    let dir = root().join("build/g").join(cfg.name);
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut flags: Vec<String> = vec!["-C".into(), "relocation-model=static".into()];
    let mut c = Command::new("cargo");
    if cfg.build_std {
        let sr = sysroot(cfg)?;
        c.arg("+nightly");
        flags.push(format!("--sysroot={}", sr.display()));
    } else if cfg.nightly {
        c.arg("+nightly");
    } else if let Some(t) = toolchain_for(cfg.triple) {
        c.arg(format!("+{t}"));
    }
    flags.extend(cfg.flags.iter().map(|s| s.to_string()));
    c.args(["rustc", "--offline", "--lib", "--profile", if cfg.dbg { "dbg" } else { "release" }, "--target", &spec_of(cfg.triple), "--features", &cfg.feats.join(",")]);
    if spec_of(cfg.triple).ends_with(".json") { c.arg("-Zjson-target-spec"); flags.push("-Zunstable-options".into()); }
    c.env("CARGO_TARGET_DIR", &dir).env("CARGO_ENCODED_RUSTFLAGS", flags.join("\x1f")).env_remove("RUSTFLAGS").current_dir(root().join("guest"));
    run(&mut c, &format!("guest build {}", cfg.name))?;
    let lib = dir.join(cfg.triple).join(if cfg.dbg { "dbg" } else { "release" }).join("libguest.a");
    let lay = cfg.arch.layout();
    let out = dir.join("guest.elf");
    let mut l = Command::new(find_lld()?);
    l.args(["-flavor", "gnu", "-static", "-e", "0", "--undefined-glob=g_*", "--undefined-glob=m_*", "--noinhibit-exec", "-z", "norelro"]);
    // program memory addresses start at zero in the guest's own view
    let bias = if cfg.arch == Arch::Avr { crate::avr::FLASH } else { 0 };
    if cfg.arch == Arch::Avr {
        let ld = dir.join("guest.ld");
        std::fs::write(&ld, format!("SECTIONS {{ .text 0 : {{ *(.text .text.*) }} .data {:#x} : {{ *(.data .data.* .rodata .rodata.*) }} .bss : {{ *(.bss .bss.* COMMON) }} /DISCARD/ : {{ *(.eh_frame*) }} }}\n", 0x80_0000 + lay.img)).map_err(|e| e.to_string())?;
        l.args(["--gc-sections", "--export-dynamic-symbol=g_*", "--export-dynamic-symbol=m_*", "-T"]).arg(&ld);
    } else { l.arg(format!("--image-base={:#x}", lay.img)); }
    if cfg.arch == Arch::Msp430 { l.args(["--gc-sections", "--export-dynamic-symbol=g_*", "--export-dynamic-symbol=m_*", "-z", "max-page-size=256"]); for (i, f) in crate::msp430::RT.iter().enumerate() { l.arg(format!("--defsym={f}={:#x}", crate::msp430::RT_BASE + 2 * i as u64)); } }
    for (i, s) in STUBS.iter().enumerate() { l.arg(format!("--defsym={s}={:#x}", lay.stub - bias + i as u64 * STUB_STEP)); }
    let st = |n: &str| lay.stub - bias + STUBS.iter().position(|s| *s == n).unwrap() as u64 * STUB_STEP;
    l.arg(format!("--defsym=rust_eh_personality={:#x}", st("host_panic")));
    l.arg(format!("--defsym=getauxval={:#x}", st("host_getauxval")));
    l.arg(format!("--defsym=__riscv_hwprobe={:#x}", st("host_hwprobe")));
    l.arg(format!("--defsym=abort={:#x}", st("host_trap")));
    for (s, h) in [("sysctlbyname", "host_sysctlbyname"), ("sysctl", "host_sysctl"), ("getisax", "host_getisax"), ("zx_system_get_features", "host_zxfeat"), ("IsProcessorFeaturePresent", "host_procfeat"), ("elf_aux_info", "host_elfaux"), ("__system_property_get", "host_sysprop"), ("dlsym", "host_dlsym")] { l.arg(format!("--defsym={s}={:#x}", st(h))); }
    l.arg("-o").arg(&out).arg(&lib);
    run(&mut l, &format!("guest link {}", cfg.name))?;
    load(cfg, &out)
}
fn load(cfg: &Cfg, p: &Path) -> Result<Image, String> {
    let b = std::fs::read(p).map_err(|e| e.to_string())?;
    let e = elf::load(&b)?;
    let lay = cfg.arch.layout();
    let base = lay.img.min(lay.obj);
    let mut ram = vec![0u8; (lay.end - base) as usize];
    let mut text = (u64::MAX, 0);
    let top = if lay.obj > lay.img { lay.obj } else { lay.end };
    let fix = |a: u64| if cfg.arch != Arch::Avr { a } else if a >= 0x80_0000 { a - 0x80_0000 } else { a + crate::avr::FLASH };
    let top = if cfg.arch == Arch::Avr { lay.end } else { top };
    for (va, data, ms, x) in &e.segs {
        let va = &fix(*va);
        if *ms == 0 { continue; }
        if *va < lay.img || va + ms > top { return Err(format!("{}: segment {va:#x}+{ms:#x} outside the image area", cfg.name)); }
        let o = (*va - base) as usize;
        ram[o..o + data.len()].copy_from_slice(data);
        if *x { text.0 = text.0.min(*va); text.1 = text.1.max(va + ms); }
    }
    let syms: HashMap<String, u64> = e.syms.into_iter().map(|(n, a)| (n, fix(a))).collect();
    let mut funcs: Vec<(u64, String)> = syms.iter().filter(|(n, a)| **a >= lay.img && !n.starts_with('$') && !n.starts_with(".L")).map(|(n, a)| (*a & !1, n.clone())).collect();
    funcs.sort();
    Ok(Image { cfg: cfg.clone(), syms, lay, ram, text, be: e.be, funcs })
}
