//@include prelude.vrs
verus! {
//@method as_ref => x_as_ref
//@include std_more.inc
//@include platform_text.inc
// written by tools/gen_platform.py
//@type expanded :: service::platform::ArmVariant | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::Arm64Variant | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::Arch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::Os | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::AixArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::AndroidArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::DarwinArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::DragonFlyArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::FreeBsdArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::IllumosArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::IOsArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::JsArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::LinuxArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::NetBsdArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::OpenBsdArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::Plan9Arch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::SolarisArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::WasiP1Arch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::WindowsArch | derive=Clone, Copy, PartialEq, Eq, Structural
//@type expanded :: service::platform::Platform | derive=Clone, Copy, PartialEq, Eq, Structural
//@type src/service/platform.rs :: ParseError
//@type src/service/platform.rs :: InvalidArchError
// ------------------------------------------------------------ property-level definitions
pub open spec fn armvariant_text(v: ArmVariant) -> Seq<char> { match v { ArmVariant::V6 => "v6"@, ArmVariant::V7 => "v7"@, ArmVariant::V8 => "v8"@ } }
pub open spec fn arm64variant_text(v: Arm64Variant) -> Seq<char> { match v { Arm64Variant::V8 => "v8"@ } }
/// `arch[/variant]`
pub open spec fn arch_text(a: Arch) -> Seq<char> { match a { Arch::_386 => "386"@, Arch::Amd64 => "amd64"@, Arch::Arm(None) => "arm"@, Arch::Arm(Some(x)) => join("arm"@, armvariant_text(x)), Arch::Arm64(None) => "arm64"@, Arch::Arm64(Some(x)) => join("arm64"@, arm64variant_text(x)), Arch::Loong64 => "loong64"@, Arch::Mips => "mips"@, Arch::MipsLe => "mipsle"@, Arch::Mips64 => "mips64"@, Arch::Mips64Le => "mips64le"@, Arch::Ppc64 => "ppc64"@, Arch::Ppc64Le => "ppc64le"@, Arch::RiscV64 => "riscv64"@, Arch::S390x => "s390x"@, Arch::Wasm => "wasm"@ } }
pub open spec fn os_text(o: Os) -> Seq<char> { match o { Os::Aix => "aix"@, Os::Android => "android"@, Os::Darwin => "darwin"@, Os::DragonFly => "dragonfly"@, Os::FreeBsd => "freebsd"@, Os::Illumos => "illumos"@, Os::IOs => "ios"@, Os::Js => "js"@, Os::Linux => "linux"@, Os::NetBsd => "netbsd"@, Os::OpenBsd => "openbsd"@, Os::Plan9 => "plan9"@, Os::Solaris => "solaris"@, Os::WasiP1 => "wasip1"@, Os::Windows => "windows"@ } }
/// `os[/arch[/variant]]`
pub open spec fn text_of(o: Os, a: Option<Arch>) -> Seq<char> { match a { None => os_text(o), Some(a) => join(os_text(o), arch_text(a)) } }
/// the supported combinations (GOOS and GOARCH; any variant of a supported architecture)
pub open spec fn supports(o: Os, a: Arch) -> bool { match o { Os::Aix => a is Ppc64, Os::Android => a is _386 || a is Amd64 || a is Arm || a is Arm64, Os::Darwin => a is Amd64 || a is Arm64, Os::DragonFly => a is Amd64, Os::FreeBsd => a is _386 || a is Amd64 || a is Arm, Os::Illumos => a is Amd64, Os::IOs => a is Arm64, Os::Js => a is Wasm, Os::Linux => a is _386 || a is Amd64 || a is Arm || a is Arm64 || a is Loong64 || a is Mips || a is MipsLe || a is Mips64 || a is Mips64Le || a is Ppc64 || a is Ppc64Le || a is RiscV64 || a is S390x, Os::NetBsd => a is _386 || a is Amd64 || a is Arm, Os::OpenBsd => a is _386 || a is Amd64 || a is Arm || a is Arm64, Os::Plan9 => a is _386 || a is Amd64 || a is Arm, Os::Solaris => a is Amd64, Os::WasiP1 => a is Wasm, Os::Windows => a is _386 || a is Amd64 || a is Arm || a is Arm64 } }
/// the operating system and architecture a platform stands for
pub open spec fn os_of(p: Platform) -> Os { match p { Platform::Aix(_) => Os::Aix, Platform::Android(_) => Os::Android, Platform::Darwin(_) => Os::Darwin, Platform::DragonFly(_) => Os::DragonFly, Platform::FreeBsd(_) => Os::FreeBsd, Platform::Illumos(_) => Os::Illumos, Platform::IOs(_) => Os::IOs, Platform::Js(_) => Os::Js, Platform::Linux(_) => Os::Linux, Platform::NetBsd(_) => Os::NetBsd, Platform::OpenBsd(_) => Os::OpenBsd, Platform::Plan9(_) => Os::Plan9, Platform::Solaris(_) => Os::Solaris, Platform::WasiP1(_) => Os::WasiP1, Platform::Windows(_) => Os::Windows } }
pub open spec fn aix_arch(a: AixArch) -> Arch { match a { AixArch::Ppc64 => Arch::Ppc64 } }
pub open spec fn android_arch(a: AndroidArch) -> Arch { match a { AndroidArch::_386 => Arch::_386, AndroidArch::Amd64 => Arch::Amd64, AndroidArch::Arm(x) => Arch::Arm(x), AndroidArch::Arm64(x) => Arch::Arm64(x) } }
pub open spec fn darwin_arch(a: DarwinArch) -> Arch { match a { DarwinArch::Amd64 => Arch::Amd64, DarwinArch::Arm64(x) => Arch::Arm64(x) } }
pub open spec fn dragonfly_arch(a: DragonFlyArch) -> Arch { match a { DragonFlyArch::Amd64 => Arch::Amd64 } }
pub open spec fn freebsd_arch(a: FreeBsdArch) -> Arch { match a { FreeBsdArch::_386 => Arch::_386, FreeBsdArch::Amd64 => Arch::Amd64, FreeBsdArch::Arm(x) => Arch::Arm(x) } }
pub open spec fn illumos_arch(a: IllumosArch) -> Arch { match a { IllumosArch::Amd64 => Arch::Amd64 } }
pub open spec fn ios_arch(a: IOsArch) -> Arch { match a { IOsArch::Arm64(x) => Arch::Arm64(x) } }
pub open spec fn js_arch(a: JsArch) -> Arch { match a { JsArch::Wasm => Arch::Wasm } }
pub open spec fn linux_arch(a: LinuxArch) -> Arch { match a { LinuxArch::_386 => Arch::_386, LinuxArch::Amd64 => Arch::Amd64, LinuxArch::Arm(x) => Arch::Arm(x), LinuxArch::Arm64(x) => Arch::Arm64(x), LinuxArch::Loong64 => Arch::Loong64, LinuxArch::Mips => Arch::Mips, LinuxArch::MipsLe => Arch::MipsLe, LinuxArch::Mips64 => Arch::Mips64, LinuxArch::Mips64Le => Arch::Mips64Le, LinuxArch::Ppc64 => Arch::Ppc64, LinuxArch::Ppc64Le => Arch::Ppc64Le, LinuxArch::RiscV64 => Arch::RiscV64, LinuxArch::S390x => Arch::S390x } }
pub open spec fn netbsd_arch(a: NetBsdArch) -> Arch { match a { NetBsdArch::_386 => Arch::_386, NetBsdArch::Amd64 => Arch::Amd64, NetBsdArch::Arm(x) => Arch::Arm(x) } }
pub open spec fn openbsd_arch(a: OpenBsdArch) -> Arch { match a { OpenBsdArch::_386 => Arch::_386, OpenBsdArch::Amd64 => Arch::Amd64, OpenBsdArch::Arm(x) => Arch::Arm(x), OpenBsdArch::Arm64(x) => Arch::Arm64(x) } }
pub open spec fn plan9_arch(a: Plan9Arch) -> Arch { match a { Plan9Arch::_386 => Arch::_386, Plan9Arch::Amd64 => Arch::Amd64, Plan9Arch::Arm(x) => Arch::Arm(x) } }
pub open spec fn solaris_arch(a: SolarisArch) -> Arch { match a { SolarisArch::Amd64 => Arch::Amd64 } }
pub open spec fn wasip1_arch(a: WasiP1Arch) -> Arch { match a { WasiP1Arch::Wasm => Arch::Wasm } }
pub open spec fn windows_arch(a: WindowsArch) -> Arch { match a { WindowsArch::_386 => Arch::_386, WindowsArch::Amd64 => Arch::Amd64, WindowsArch::Arm(x) => Arch::Arm(x), WindowsArch::Arm64(x) => Arch::Arm64(x) } }
pub open spec fn arch_of(p: Platform) -> Option<Arch> { match p { Platform::Aix(None) | Platform::Android(None) | Platform::Darwin(None) | Platform::DragonFly(None) | Platform::FreeBsd(None) | Platform::Illumos(None) | Platform::IOs(None) | Platform::Js(None) | Platform::Linux(None) | Platform::NetBsd(None) | Platform::OpenBsd(None) | Platform::Plan9(None) | Platform::Solaris(None) | Platform::WasiP1(None) | Platform::Windows(None) => None, Platform::Aix(Some(a)) => Some(aix_arch(a)), Platform::Android(Some(a)) => Some(android_arch(a)), Platform::Darwin(Some(a)) => Some(darwin_arch(a)), Platform::DragonFly(Some(a)) => Some(dragonfly_arch(a)), Platform::FreeBsd(Some(a)) => Some(freebsd_arch(a)), Platform::Illumos(Some(a)) => Some(illumos_arch(a)), Platform::IOs(Some(a)) => Some(ios_arch(a)), Platform::Js(Some(a)) => Some(js_arch(a)), Platform::Linux(Some(a)) => Some(linux_arch(a)), Platform::NetBsd(Some(a)) => Some(netbsd_arch(a)), Platform::OpenBsd(Some(a)) => Some(openbsd_arch(a)), Platform::Plan9(Some(a)) => Some(plan9_arch(a)), Platform::Solaris(Some(a)) => Some(solaris_arch(a)), Platform::WasiP1(Some(a)) => Some(wasip1_arch(a)), Platform::Windows(Some(a)) => Some(windows_arch(a)) } }
pub open spec fn platform_text(p: Platform) -> Seq<char> { text_of(os_of(p), arch_of(p)) }
// ------------------------------------------------------------ the texts written out
pub proof fn lit_arch()
    ensures
        join("arm"@, "v6"@) == "arm/v6"@,
        join("arm"@, "v7"@) == "arm/v7"@,
        join("arm"@, "v8"@) == "arm/v8"@,
        join("arm64"@, "v8"@) == "arm64/v8"@,
{
    reveal_strlit("arm");
    reveal_strlit("arm/v6");
    reveal_strlit("arm/v7");
    reveal_strlit("arm/v8");
    reveal_strlit("arm64");
    reveal_strlit("arm64/v8");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("arm"@, "v6"@) =~= "arm/v6"@);
    assert(join("arm"@, "v7"@) =~= "arm/v7"@);
    assert(join("arm"@, "v8"@) =~= "arm/v8"@);
    assert(join("arm64"@, "v8"@) =~= "arm64/v8"@);
}
pub proof fn lit_aix()
    ensures
        join("aix"@, "ppc64"@) == "aix/ppc64"@,
{
    reveal_strlit("aix");
    reveal_strlit("aix/ppc64");
    reveal_strlit("ppc64");
    assert(join("aix"@, "ppc64"@) =~= "aix/ppc64"@);
}
pub proof fn lit_android()
    ensures
        join("android"@, "386"@) == "android/386"@,
        join("android"@, "amd64"@) == "android/amd64"@,
        join("android"@, "arm"@) == "android/arm"@,
        join("android"@, join("arm"@, "v6"@)) == "android/arm/v6"@,
        join("android"@, join("arm"@, "v7"@)) == "android/arm/v7"@,
        join("android"@, join("arm"@, "v8"@)) == "android/arm/v8"@,
        join("android"@, "arm64"@) == "android/arm64"@,
        join("android"@, join("arm64"@, "v8"@)) == "android/arm64/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("android");
    reveal_strlit("android/386");
    reveal_strlit("android/amd64");
    reveal_strlit("android/arm");
    reveal_strlit("android/arm/v6");
    reveal_strlit("android/arm/v7");
    reveal_strlit("android/arm/v8");
    reveal_strlit("android/arm64");
    reveal_strlit("android/arm64/v8");
    reveal_strlit("arm");
    reveal_strlit("arm64");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("android"@, "386"@) =~= "android/386"@);
    assert(join("android"@, "amd64"@) =~= "android/amd64"@);
    assert(join("android"@, "arm"@) =~= "android/arm"@);
    assert(join("android"@, join("arm"@, "v6"@)) =~= "android/arm/v6"@);
    assert(join("android"@, join("arm"@, "v7"@)) =~= "android/arm/v7"@);
    assert(join("android"@, join("arm"@, "v8"@)) =~= "android/arm/v8"@);
    assert(join("android"@, "arm64"@) =~= "android/arm64"@);
    assert(join("android"@, join("arm64"@, "v8"@)) =~= "android/arm64/v8"@);
}
pub proof fn lit_darwin()
    ensures
        join("darwin"@, "amd64"@) == "darwin/amd64"@,
        join("darwin"@, "arm64"@) == "darwin/arm64"@,
        join("darwin"@, join("arm64"@, "v8"@)) == "darwin/arm64/v8"@,
{
    reveal_strlit("amd64");
    reveal_strlit("arm64");
    reveal_strlit("darwin");
    reveal_strlit("darwin/amd64");
    reveal_strlit("darwin/arm64");
    reveal_strlit("darwin/arm64/v8");
    reveal_strlit("v8");
    assert(join("darwin"@, "amd64"@) =~= "darwin/amd64"@);
    assert(join("darwin"@, "arm64"@) =~= "darwin/arm64"@);
    assert(join("darwin"@, join("arm64"@, "v8"@)) =~= "darwin/arm64/v8"@);
}
pub proof fn lit_dragonfly()
    ensures
        join("dragonfly"@, "amd64"@) == "dragonfly/amd64"@,
{
    reveal_strlit("amd64");
    reveal_strlit("dragonfly");
    reveal_strlit("dragonfly/amd64");
    assert(join("dragonfly"@, "amd64"@) =~= "dragonfly/amd64"@);
}
pub proof fn lit_freebsd()
    ensures
        join("freebsd"@, "386"@) == "freebsd/386"@,
        join("freebsd"@, "amd64"@) == "freebsd/amd64"@,
        join("freebsd"@, "arm"@) == "freebsd/arm"@,
        join("freebsd"@, join("arm"@, "v6"@)) == "freebsd/arm/v6"@,
        join("freebsd"@, join("arm"@, "v7"@)) == "freebsd/arm/v7"@,
        join("freebsd"@, join("arm"@, "v8"@)) == "freebsd/arm/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("freebsd");
    reveal_strlit("freebsd/386");
    reveal_strlit("freebsd/amd64");
    reveal_strlit("freebsd/arm");
    reveal_strlit("freebsd/arm/v6");
    reveal_strlit("freebsd/arm/v7");
    reveal_strlit("freebsd/arm/v8");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("freebsd"@, "386"@) =~= "freebsd/386"@);
    assert(join("freebsd"@, "amd64"@) =~= "freebsd/amd64"@);
    assert(join("freebsd"@, "arm"@) =~= "freebsd/arm"@);
    assert(join("freebsd"@, join("arm"@, "v6"@)) =~= "freebsd/arm/v6"@);
    assert(join("freebsd"@, join("arm"@, "v7"@)) =~= "freebsd/arm/v7"@);
    assert(join("freebsd"@, join("arm"@, "v8"@)) =~= "freebsd/arm/v8"@);
}
pub proof fn lit_illumos()
    ensures
        join("illumos"@, "amd64"@) == "illumos/amd64"@,
{
    reveal_strlit("amd64");
    reveal_strlit("illumos");
    reveal_strlit("illumos/amd64");
    assert(join("illumos"@, "amd64"@) =~= "illumos/amd64"@);
}
pub proof fn lit_ios()
    ensures
        join("ios"@, "arm64"@) == "ios/arm64"@,
        join("ios"@, join("arm64"@, "v8"@)) == "ios/arm64/v8"@,
{
    reveal_strlit("arm64");
    reveal_strlit("ios");
    reveal_strlit("ios/arm64");
    reveal_strlit("ios/arm64/v8");
    reveal_strlit("v8");
    assert(join("ios"@, "arm64"@) =~= "ios/arm64"@);
    assert(join("ios"@, join("arm64"@, "v8"@)) =~= "ios/arm64/v8"@);
}
pub proof fn lit_js()
    ensures
        join("js"@, "wasm"@) == "js/wasm"@,
{
    reveal_strlit("js");
    reveal_strlit("js/wasm");
    reveal_strlit("wasm");
    assert(join("js"@, "wasm"@) =~= "js/wasm"@);
}
pub proof fn lit_linux()
    ensures
        join("linux"@, "386"@) == "linux/386"@,
        join("linux"@, "amd64"@) == "linux/amd64"@,
        join("linux"@, "arm"@) == "linux/arm"@,
        join("linux"@, join("arm"@, "v6"@)) == "linux/arm/v6"@,
        join("linux"@, join("arm"@, "v7"@)) == "linux/arm/v7"@,
        join("linux"@, join("arm"@, "v8"@)) == "linux/arm/v8"@,
        join("linux"@, "arm64"@) == "linux/arm64"@,
        join("linux"@, join("arm64"@, "v8"@)) == "linux/arm64/v8"@,
        join("linux"@, "loong64"@) == "linux/loong64"@,
        join("linux"@, "mips"@) == "linux/mips"@,
        join("linux"@, "mipsle"@) == "linux/mipsle"@,
        join("linux"@, "mips64"@) == "linux/mips64"@,
        join("linux"@, "mips64le"@) == "linux/mips64le"@,
        join("linux"@, "ppc64"@) == "linux/ppc64"@,
        join("linux"@, "ppc64le"@) == "linux/ppc64le"@,
        join("linux"@, "riscv64"@) == "linux/riscv64"@,
        join("linux"@, "s390x"@) == "linux/s390x"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("arm64");
    reveal_strlit("linux");
    reveal_strlit("linux/386");
    reveal_strlit("linux/amd64");
    reveal_strlit("linux/arm");
    reveal_strlit("linux/arm/v6");
    reveal_strlit("linux/arm/v7");
    reveal_strlit("linux/arm/v8");
    reveal_strlit("linux/arm64");
    reveal_strlit("linux/arm64/v8");
    reveal_strlit("linux/loong64");
    reveal_strlit("linux/mips");
    reveal_strlit("linux/mips64");
    reveal_strlit("linux/mips64le");
    reveal_strlit("linux/mipsle");
    reveal_strlit("linux/ppc64");
    reveal_strlit("linux/ppc64le");
    reveal_strlit("linux/riscv64");
    reveal_strlit("linux/s390x");
    reveal_strlit("loong64");
    reveal_strlit("mips");
    reveal_strlit("mips64");
    reveal_strlit("mips64le");
    reveal_strlit("mipsle");
    reveal_strlit("ppc64");
    reveal_strlit("ppc64le");
    reveal_strlit("riscv64");
    reveal_strlit("s390x");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("linux"@, "386"@) =~= "linux/386"@);
    assert(join("linux"@, "amd64"@) =~= "linux/amd64"@);
    assert(join("linux"@, "arm"@) =~= "linux/arm"@);
    assert(join("linux"@, join("arm"@, "v6"@)) =~= "linux/arm/v6"@);
    assert(join("linux"@, join("arm"@, "v7"@)) =~= "linux/arm/v7"@);
    assert(join("linux"@, join("arm"@, "v8"@)) =~= "linux/arm/v8"@);
    assert(join("linux"@, "arm64"@) =~= "linux/arm64"@);
    assert(join("linux"@, join("arm64"@, "v8"@)) =~= "linux/arm64/v8"@);
    assert(join("linux"@, "loong64"@) =~= "linux/loong64"@);
    assert(join("linux"@, "mips"@) =~= "linux/mips"@);
    assert(join("linux"@, "mipsle"@) =~= "linux/mipsle"@);
    assert(join("linux"@, "mips64"@) =~= "linux/mips64"@);
    assert(join("linux"@, "mips64le"@) =~= "linux/mips64le"@);
    assert(join("linux"@, "ppc64"@) =~= "linux/ppc64"@);
    assert(join("linux"@, "ppc64le"@) =~= "linux/ppc64le"@);
    assert(join("linux"@, "riscv64"@) =~= "linux/riscv64"@);
    assert(join("linux"@, "s390x"@) =~= "linux/s390x"@);
}
pub proof fn lit_netbsd()
    ensures
        join("netbsd"@, "386"@) == "netbsd/386"@,
        join("netbsd"@, "amd64"@) == "netbsd/amd64"@,
        join("netbsd"@, "arm"@) == "netbsd/arm"@,
        join("netbsd"@, join("arm"@, "v6"@)) == "netbsd/arm/v6"@,
        join("netbsd"@, join("arm"@, "v7"@)) == "netbsd/arm/v7"@,
        join("netbsd"@, join("arm"@, "v8"@)) == "netbsd/arm/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("netbsd");
    reveal_strlit("netbsd/386");
    reveal_strlit("netbsd/amd64");
    reveal_strlit("netbsd/arm");
    reveal_strlit("netbsd/arm/v6");
    reveal_strlit("netbsd/arm/v7");
    reveal_strlit("netbsd/arm/v8");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("netbsd"@, "386"@) =~= "netbsd/386"@);
    assert(join("netbsd"@, "amd64"@) =~= "netbsd/amd64"@);
    assert(join("netbsd"@, "arm"@) =~= "netbsd/arm"@);
    assert(join("netbsd"@, join("arm"@, "v6"@)) =~= "netbsd/arm/v6"@);
    assert(join("netbsd"@, join("arm"@, "v7"@)) =~= "netbsd/arm/v7"@);
    assert(join("netbsd"@, join("arm"@, "v8"@)) =~= "netbsd/arm/v8"@);
}
pub proof fn lit_openbsd()
    ensures
        join("openbsd"@, "386"@) == "openbsd/386"@,
        join("openbsd"@, "amd64"@) == "openbsd/amd64"@,
        join("openbsd"@, "arm"@) == "openbsd/arm"@,
        join("openbsd"@, join("arm"@, "v6"@)) == "openbsd/arm/v6"@,
        join("openbsd"@, join("arm"@, "v7"@)) == "openbsd/arm/v7"@,
        join("openbsd"@, join("arm"@, "v8"@)) == "openbsd/arm/v8"@,
        join("openbsd"@, "arm64"@) == "openbsd/arm64"@,
        join("openbsd"@, join("arm64"@, "v8"@)) == "openbsd/arm64/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("arm64");
    reveal_strlit("openbsd");
    reveal_strlit("openbsd/386");
    reveal_strlit("openbsd/amd64");
    reveal_strlit("openbsd/arm");
    reveal_strlit("openbsd/arm/v6");
    reveal_strlit("openbsd/arm/v7");
    reveal_strlit("openbsd/arm/v8");
    reveal_strlit("openbsd/arm64");
    reveal_strlit("openbsd/arm64/v8");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("openbsd"@, "386"@) =~= "openbsd/386"@);
    assert(join("openbsd"@, "amd64"@) =~= "openbsd/amd64"@);
    assert(join("openbsd"@, "arm"@) =~= "openbsd/arm"@);
    assert(join("openbsd"@, join("arm"@, "v6"@)) =~= "openbsd/arm/v6"@);
    assert(join("openbsd"@, join("arm"@, "v7"@)) =~= "openbsd/arm/v7"@);
    assert(join("openbsd"@, join("arm"@, "v8"@)) =~= "openbsd/arm/v8"@);
    assert(join("openbsd"@, "arm64"@) =~= "openbsd/arm64"@);
    assert(join("openbsd"@, join("arm64"@, "v8"@)) =~= "openbsd/arm64/v8"@);
}
pub proof fn lit_plan9()
    ensures
        join("plan9"@, "386"@) == "plan9/386"@,
        join("plan9"@, "amd64"@) == "plan9/amd64"@,
        join("plan9"@, "arm"@) == "plan9/arm"@,
        join("plan9"@, join("arm"@, "v6"@)) == "plan9/arm/v6"@,
        join("plan9"@, join("arm"@, "v7"@)) == "plan9/arm/v7"@,
        join("plan9"@, join("arm"@, "v8"@)) == "plan9/arm/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("plan9");
    reveal_strlit("plan9/386");
    reveal_strlit("plan9/amd64");
    reveal_strlit("plan9/arm");
    reveal_strlit("plan9/arm/v6");
    reveal_strlit("plan9/arm/v7");
    reveal_strlit("plan9/arm/v8");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    assert(join("plan9"@, "386"@) =~= "plan9/386"@);
    assert(join("plan9"@, "amd64"@) =~= "plan9/amd64"@);
    assert(join("plan9"@, "arm"@) =~= "plan9/arm"@);
    assert(join("plan9"@, join("arm"@, "v6"@)) =~= "plan9/arm/v6"@);
    assert(join("plan9"@, join("arm"@, "v7"@)) =~= "plan9/arm/v7"@);
    assert(join("plan9"@, join("arm"@, "v8"@)) =~= "plan9/arm/v8"@);
}
pub proof fn lit_solaris()
    ensures
        join("solaris"@, "amd64"@) == "solaris/amd64"@,
{
    reveal_strlit("amd64");
    reveal_strlit("solaris");
    reveal_strlit("solaris/amd64");
    assert(join("solaris"@, "amd64"@) =~= "solaris/amd64"@);
}
pub proof fn lit_wasip1()
    ensures
        join("wasip1"@, "wasm"@) == "wasip1/wasm"@,
{
    reveal_strlit("wasip1");
    reveal_strlit("wasip1/wasm");
    reveal_strlit("wasm");
    assert(join("wasip1"@, "wasm"@) =~= "wasip1/wasm"@);
}
pub proof fn lit_windows()
    ensures
        join("windows"@, "386"@) == "windows/386"@,
        join("windows"@, "amd64"@) == "windows/amd64"@,
        join("windows"@, "arm"@) == "windows/arm"@,
        join("windows"@, join("arm"@, "v6"@)) == "windows/arm/v6"@,
        join("windows"@, join("arm"@, "v7"@)) == "windows/arm/v7"@,
        join("windows"@, join("arm"@, "v8"@)) == "windows/arm/v8"@,
        join("windows"@, "arm64"@) == "windows/arm64"@,
        join("windows"@, join("arm64"@, "v8"@)) == "windows/arm64/v8"@,
{
    reveal_strlit("386");
    reveal_strlit("amd64");
    reveal_strlit("arm");
    reveal_strlit("arm64");
    reveal_strlit("v6");
    reveal_strlit("v7");
    reveal_strlit("v8");
    reveal_strlit("windows");
    reveal_strlit("windows/386");
    reveal_strlit("windows/amd64");
    reveal_strlit("windows/arm");
    reveal_strlit("windows/arm/v6");
    reveal_strlit("windows/arm/v7");
    reveal_strlit("windows/arm/v8");
    reveal_strlit("windows/arm64");
    reveal_strlit("windows/arm64/v8");
    assert(join("windows"@, "386"@) =~= "windows/386"@);
    assert(join("windows"@, "amd64"@) =~= "windows/amd64"@);
    assert(join("windows"@, "arm"@) =~= "windows/arm"@);
    assert(join("windows"@, join("arm"@, "v6"@)) =~= "windows/arm/v6"@);
    assert(join("windows"@, join("arm"@, "v7"@)) =~= "windows/arm/v7"@);
    assert(join("windows"@, join("arm"@, "v8"@)) =~= "windows/arm/v8"@);
    assert(join("windows"@, "arm64"@) =~= "windows/arm64"@);
    assert(join("windows"@, join("arm64"@, "v8"@)) =~= "windows/arm64/v8"@);
}
pub proof fn lit_all()
    ensures
        join("aix"@, "ppc64"@) == "aix/ppc64"@,
        join("android"@, "386"@) == "android/386"@,
        join("android"@, "amd64"@) == "android/amd64"@,
        join("android"@, "arm"@) == "android/arm"@,
        join("android"@, join("arm"@, "v6"@)) == "android/arm/v6"@,
        join("android"@, join("arm"@, "v7"@)) == "android/arm/v7"@,
        join("android"@, join("arm"@, "v8"@)) == "android/arm/v8"@,
        join("android"@, "arm64"@) == "android/arm64"@,
        join("android"@, join("arm64"@, "v8"@)) == "android/arm64/v8"@,
        join("darwin"@, "amd64"@) == "darwin/amd64"@,
        join("darwin"@, "arm64"@) == "darwin/arm64"@,
        join("darwin"@, join("arm64"@, "v8"@)) == "darwin/arm64/v8"@,
        join("dragonfly"@, "amd64"@) == "dragonfly/amd64"@,
        join("freebsd"@, "386"@) == "freebsd/386"@,
        join("freebsd"@, "amd64"@) == "freebsd/amd64"@,
        join("freebsd"@, "arm"@) == "freebsd/arm"@,
        join("freebsd"@, join("arm"@, "v6"@)) == "freebsd/arm/v6"@,
        join("freebsd"@, join("arm"@, "v7"@)) == "freebsd/arm/v7"@,
        join("freebsd"@, join("arm"@, "v8"@)) == "freebsd/arm/v8"@,
        join("illumos"@, "amd64"@) == "illumos/amd64"@,
        join("ios"@, "arm64"@) == "ios/arm64"@,
        join("ios"@, join("arm64"@, "v8"@)) == "ios/arm64/v8"@,
        join("js"@, "wasm"@) == "js/wasm"@,
        join("linux"@, "386"@) == "linux/386"@,
        join("linux"@, "amd64"@) == "linux/amd64"@,
        join("linux"@, "arm"@) == "linux/arm"@,
        join("linux"@, join("arm"@, "v6"@)) == "linux/arm/v6"@,
        join("linux"@, join("arm"@, "v7"@)) == "linux/arm/v7"@,
        join("linux"@, join("arm"@, "v8"@)) == "linux/arm/v8"@,
        join("linux"@, "arm64"@) == "linux/arm64"@,
        join("linux"@, join("arm64"@, "v8"@)) == "linux/arm64/v8"@,
        join("linux"@, "loong64"@) == "linux/loong64"@,
        join("linux"@, "mips"@) == "linux/mips"@,
        join("linux"@, "mipsle"@) == "linux/mipsle"@,
        join("linux"@, "mips64"@) == "linux/mips64"@,
        join("linux"@, "mips64le"@) == "linux/mips64le"@,
        join("linux"@, "ppc64"@) == "linux/ppc64"@,
        join("linux"@, "ppc64le"@) == "linux/ppc64le"@,
        join("linux"@, "riscv64"@) == "linux/riscv64"@,
        join("linux"@, "s390x"@) == "linux/s390x"@,
        join("netbsd"@, "386"@) == "netbsd/386"@,
        join("netbsd"@, "amd64"@) == "netbsd/amd64"@,
        join("netbsd"@, "arm"@) == "netbsd/arm"@,
        join("netbsd"@, join("arm"@, "v6"@)) == "netbsd/arm/v6"@,
        join("netbsd"@, join("arm"@, "v7"@)) == "netbsd/arm/v7"@,
        join("netbsd"@, join("arm"@, "v8"@)) == "netbsd/arm/v8"@,
        join("openbsd"@, "386"@) == "openbsd/386"@,
        join("openbsd"@, "amd64"@) == "openbsd/amd64"@,
        join("openbsd"@, "arm"@) == "openbsd/arm"@,
        join("openbsd"@, join("arm"@, "v6"@)) == "openbsd/arm/v6"@,
        join("openbsd"@, join("arm"@, "v7"@)) == "openbsd/arm/v7"@,
        join("openbsd"@, join("arm"@, "v8"@)) == "openbsd/arm/v8"@,
        join("openbsd"@, "arm64"@) == "openbsd/arm64"@,
        join("openbsd"@, join("arm64"@, "v8"@)) == "openbsd/arm64/v8"@,
        join("plan9"@, "386"@) == "plan9/386"@,
        join("plan9"@, "amd64"@) == "plan9/amd64"@,
        join("plan9"@, "arm"@) == "plan9/arm"@,
        join("plan9"@, join("arm"@, "v6"@)) == "plan9/arm/v6"@,
        join("plan9"@, join("arm"@, "v7"@)) == "plan9/arm/v7"@,
        join("plan9"@, join("arm"@, "v8"@)) == "plan9/arm/v8"@,
        join("solaris"@, "amd64"@) == "solaris/amd64"@,
        join("wasip1"@, "wasm"@) == "wasip1/wasm"@,
        join("windows"@, "386"@) == "windows/386"@,
        join("windows"@, "amd64"@) == "windows/amd64"@,
        join("windows"@, "arm"@) == "windows/arm"@,
        join("windows"@, join("arm"@, "v6"@)) == "windows/arm/v6"@,
        join("windows"@, join("arm"@, "v7"@)) == "windows/arm/v7"@,
        join("windows"@, join("arm"@, "v8"@)) == "windows/arm/v8"@,
        join("windows"@, "arm64"@) == "windows/arm64"@,
        join("windows"@, join("arm64"@, "v8"@)) == "windows/arm64/v8"@,
{ lit_aix(); lit_android(); lit_darwin(); lit_dragonfly(); lit_freebsd(); lit_illumos(); lit_ios(); lit_js(); lit_linux(); lit_netbsd(); lit_openbsd(); lit_plan9(); lit_solaris(); lit_wasip1(); lit_windows(); }
/// a text which is none of these is the text of no platform
pub open spec fn no_aix(s: Seq<char>) -> bool { s != "aix"@ && s != "aix/ppc64"@ }
pub proof fn lemma_no_aix(s: Seq<char>)
    requires no_aix(s),
    ensures forall|x: Platform| x is Aix ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_aix();
}
pub open spec fn no_android(s: Seq<char>) -> bool { s != "android"@ && s != "android/386"@ && s != "android/amd64"@ && s != "android/arm"@ && s != "android/arm/v6"@ && s != "android/arm/v7"@ && s != "android/arm/v8"@ && s != "android/arm64"@ && s != "android/arm64/v8"@ }
pub proof fn lemma_no_android(s: Seq<char>)
    requires no_android(s),
    ensures forall|x: Platform| x is Android ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_android();
}
pub open spec fn no_darwin(s: Seq<char>) -> bool { s != "darwin"@ && s != "darwin/amd64"@ && s != "darwin/arm64"@ && s != "darwin/arm64/v8"@ }
pub proof fn lemma_no_darwin(s: Seq<char>)
    requires no_darwin(s),
    ensures forall|x: Platform| x is Darwin ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_darwin();
}
pub open spec fn no_dragonfly(s: Seq<char>) -> bool { s != "dragonfly"@ && s != "dragonfly/amd64"@ }
pub proof fn lemma_no_dragonfly(s: Seq<char>)
    requires no_dragonfly(s),
    ensures forall|x: Platform| x is DragonFly ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_dragonfly();
}
pub open spec fn no_freebsd(s: Seq<char>) -> bool { s != "freebsd"@ && s != "freebsd/386"@ && s != "freebsd/amd64"@ && s != "freebsd/arm"@ && s != "freebsd/arm/v6"@ && s != "freebsd/arm/v7"@ && s != "freebsd/arm/v8"@ }
pub proof fn lemma_no_freebsd(s: Seq<char>)
    requires no_freebsd(s),
    ensures forall|x: Platform| x is FreeBsd ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_freebsd();
}
pub open spec fn no_illumos(s: Seq<char>) -> bool { s != "illumos"@ && s != "illumos/amd64"@ }
pub proof fn lemma_no_illumos(s: Seq<char>)
    requires no_illumos(s),
    ensures forall|x: Platform| x is Illumos ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_illumos();
}
pub open spec fn no_ios(s: Seq<char>) -> bool { s != "ios"@ && s != "ios/arm64"@ && s != "ios/arm64/v8"@ }
pub proof fn lemma_no_ios(s: Seq<char>)
    requires no_ios(s),
    ensures forall|x: Platform| x is IOs ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_ios();
}
pub open spec fn no_js(s: Seq<char>) -> bool { s != "js"@ && s != "js/wasm"@ }
pub proof fn lemma_no_js(s: Seq<char>)
    requires no_js(s),
    ensures forall|x: Platform| x is Js ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_js();
}
pub open spec fn no_linux(s: Seq<char>) -> bool { s != "linux"@ && s != "linux/386"@ && s != "linux/amd64"@ && s != "linux/arm"@ && s != "linux/arm/v6"@ && s != "linux/arm/v7"@ && s != "linux/arm/v8"@ && s != "linux/arm64"@ && s != "linux/arm64/v8"@ && s != "linux/loong64"@ && s != "linux/mips"@ && s != "linux/mipsle"@ && s != "linux/mips64"@ && s != "linux/mips64le"@ && s != "linux/ppc64"@ && s != "linux/ppc64le"@ && s != "linux/riscv64"@ && s != "linux/s390x"@ }
pub proof fn lemma_no_linux(s: Seq<char>)
    requires no_linux(s),
    ensures forall|x: Platform| x is Linux ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_linux();
}
pub open spec fn no_netbsd(s: Seq<char>) -> bool { s != "netbsd"@ && s != "netbsd/386"@ && s != "netbsd/amd64"@ && s != "netbsd/arm"@ && s != "netbsd/arm/v6"@ && s != "netbsd/arm/v7"@ && s != "netbsd/arm/v8"@ }
pub proof fn lemma_no_netbsd(s: Seq<char>)
    requires no_netbsd(s),
    ensures forall|x: Platform| x is NetBsd ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_netbsd();
}
pub open spec fn no_openbsd(s: Seq<char>) -> bool { s != "openbsd"@ && s != "openbsd/386"@ && s != "openbsd/amd64"@ && s != "openbsd/arm"@ && s != "openbsd/arm/v6"@ && s != "openbsd/arm/v7"@ && s != "openbsd/arm/v8"@ && s != "openbsd/arm64"@ && s != "openbsd/arm64/v8"@ }
pub proof fn lemma_no_openbsd(s: Seq<char>)
    requires no_openbsd(s),
    ensures forall|x: Platform| x is OpenBsd ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_openbsd();
}
pub open spec fn no_plan9(s: Seq<char>) -> bool { s != "plan9"@ && s != "plan9/386"@ && s != "plan9/amd64"@ && s != "plan9/arm"@ && s != "plan9/arm/v6"@ && s != "plan9/arm/v7"@ && s != "plan9/arm/v8"@ }
pub proof fn lemma_no_plan9(s: Seq<char>)
    requires no_plan9(s),
    ensures forall|x: Platform| x is Plan9 ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_plan9();
}
pub open spec fn no_solaris(s: Seq<char>) -> bool { s != "solaris"@ && s != "solaris/amd64"@ }
pub proof fn lemma_no_solaris(s: Seq<char>)
    requires no_solaris(s),
    ensures forall|x: Platform| x is Solaris ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_solaris();
}
pub open spec fn no_wasip1(s: Seq<char>) -> bool { s != "wasip1"@ && s != "wasip1/wasm"@ }
pub proof fn lemma_no_wasip1(s: Seq<char>)
    requires no_wasip1(s),
    ensures forall|x: Platform| x is WasiP1 ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_wasip1();
}
pub open spec fn no_windows(s: Seq<char>) -> bool { s != "windows"@ && s != "windows/386"@ && s != "windows/amd64"@ && s != "windows/arm"@ && s != "windows/arm/v6"@ && s != "windows/arm/v7"@ && s != "windows/arm/v8"@ && s != "windows/arm64"@ && s != "windows/arm64/v8"@ }
pub proof fn lemma_no_windows(s: Seq<char>)
    requires no_windows(s),
    ensures forall|x: Platform| x is Windows ==> #[trigger] platform_text(x) != s,
{
    hide(join);
    lit_windows();
}
pub open spec fn no_platform(s: Seq<char>) -> bool { no_aix(s) && no_android(s) && no_darwin(s) && no_dragonfly(s) && no_freebsd(s) && no_illumos(s) && no_ios(s) && no_js(s) && no_linux(s) && no_netbsd(s) && no_openbsd(s) && no_plan9(s) && no_solaris(s) && no_wasip1(s) && no_windows(s) }
pub proof fn lemma_no_platform(s: Seq<char>)
    requires no_platform(s),
    ensures forall|x: Platform| #[trigger] platform_text(x) != s,
{
    hide(platform_text);
    hide(no_aix);
    hide(no_android);
    hide(no_darwin);
    hide(no_dragonfly);
    hide(no_freebsd);
    hide(no_illumos);
    hide(no_ios);
    hide(no_js);
    hide(no_linux);
    hide(no_netbsd);
    hide(no_openbsd);
    hide(no_plan9);
    hide(no_solaris);
    hide(no_wasip1);
    hide(no_windows);
    lemma_no_aix(s); lemma_no_android(s); lemma_no_darwin(s); lemma_no_dragonfly(s); lemma_no_freebsd(s); lemma_no_illumos(s); lemma_no_ios(s); lemma_no_js(s); lemma_no_linux(s); lemma_no_netbsd(s); lemma_no_openbsd(s); lemma_no_plan9(s); lemma_no_solaris(s); lemma_no_wasip1(s); lemma_no_windows(s);
}
// ------------------------------------------------------------ the code
//@fn expanded :: service::platform::ArmVariant::as_str
    ensures r@ == armvariant_text(*self)
//@end
//@fn expanded :: service::platform::<Display for ArmVariant>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { armvariant_text(*self) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for ArmVariant>::as_ref | as=as_ref_str
    ensures r@ == armvariant_text(*self)
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn armvariant_post(s: Seq<char>, r: Result<ArmVariant, ParseError>) -> bool {
    &&& r matches Ok(x) ==> armvariant_text(x) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: ArmVariant| armvariant_text(x) != s
}
//@fn expanded :: service::platform::<FromStr for ArmVariant>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { armvariant_post(s, r) }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for ArmVariant>::try_from | as=try_from_text
    ensures armvariant_post(value@, r)
//@end
//@fn expanded :: service::platform::Arm64Variant::as_str
    ensures r@ == arm64variant_text(*self)
//@end
//@fn expanded :: service::platform::<Display for Arm64Variant>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arm64variant_text(*self) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for Arm64Variant>::as_ref | as=as_ref_str
    ensures r@ == arm64variant_text(*self)
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn arm64variant_post(s: Seq<char>, r: Result<Arm64Variant, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arm64variant_text(x) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: Arm64Variant| arm64variant_text(x) != s
}
//@fn expanded :: service::platform::<FromStr for Arm64Variant>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { arm64variant_post(s, r) }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for Arm64Variant>::try_from | as=try_from_text
    ensures arm64variant_post(value@, r)
//@end
//@fn expanded :: service::platform::Arch::as_str | noreveal
    ensures r@ == arch_text(*self)
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for Arch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(*self) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for Arch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(*self)
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn arch_post(s: Seq<char>, r: Result<Arch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(x) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: Arch| arch_text(x) != s
}
//@fn expanded :: service::platform::<FromStr for Arch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { arch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for Arch>::try_from | as=try_from_text
    ensures arch_post(value@, r)
//@end
//@fn expanded :: service::platform::Os::as_str
    ensures r@ == os_text(*self)
//@end
//@fn expanded :: service::platform::<Display for Os>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { os_text(*self) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for Os>::as_ref | as=as_ref_str
    ensures r@ == os_text(*self)
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn os_post(s: Seq<char>, r: Result<Os, ParseError>) -> bool {
    &&& r matches Ok(x) ==> os_text(x) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: Os| os_text(x) != s
}
//@fn expanded :: service::platform::<FromStr for Os>::from_str | trait=XFromStr | as=x_from_str | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { os_post(s, r) }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for Os>::try_from | as=try_from_text
    ensures os_post(value@, r)
//@end
//@fn expanded :: service::platform::AixArch::as_str | noreveal
    ensures r@ == arch_text(aix_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for AixArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(aix_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for AixArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(aix_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn aixarch_post(s: Seq<char>, r: Result<AixArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(aix_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: AixArch| arch_text(aix_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for AixArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { aixarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for AixArch>::try_from | as=try_from_text
    ensures aixarch_post(value@, r)
//@end
//@const expanded :: service::platform::AixArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for AixArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Aix, arch), r matches Ok(x) ==> aix_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Aix
//@end
//@fn expanded :: service::platform::<From<AixArch> for Arch>::from | as=from_aix
    ensures r == aix_arch(value)
//@end
impl XInto<Arch> for AixArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == aix_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_aix(self) }
}
//@fn expanded :: service::platform::AndroidArch::as_str | noreveal
    ensures r@ == arch_text(android_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for AndroidArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(android_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for AndroidArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(android_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn androidarch_post(s: Seq<char>, r: Result<AndroidArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(android_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: AndroidArch| arch_text(android_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for AndroidArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { androidarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for AndroidArch>::try_from | as=try_from_text
    ensures androidarch_post(value@, r)
//@end
//@const expanded :: service::platform::AndroidArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for AndroidArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Android, arch), r matches Ok(x) ==> android_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Android
//@end
//@fn expanded :: service::platform::<From<AndroidArch> for Arch>::from | as=from_android
    ensures r == android_arch(value)
//@end
impl XInto<Arch> for AndroidArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == android_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_android(self) }
}
//@fn expanded :: service::platform::DarwinArch::as_str | noreveal
    ensures r@ == arch_text(darwin_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for DarwinArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(darwin_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for DarwinArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(darwin_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn darwinarch_post(s: Seq<char>, r: Result<DarwinArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(darwin_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: DarwinArch| arch_text(darwin_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for DarwinArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { darwinarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for DarwinArch>::try_from | as=try_from_text
    ensures darwinarch_post(value@, r)
//@end
//@const expanded :: service::platform::DarwinArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for DarwinArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Darwin, arch), r matches Ok(x) ==> darwin_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Darwin
//@end
//@fn expanded :: service::platform::<From<DarwinArch> for Arch>::from | as=from_darwin
    ensures r == darwin_arch(value)
//@end
impl XInto<Arch> for DarwinArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == darwin_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_darwin(self) }
}
//@fn expanded :: service::platform::DragonFlyArch::as_str | noreveal
    ensures r@ == arch_text(dragonfly_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for DragonFlyArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(dragonfly_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for DragonFlyArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(dragonfly_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn dragonflyarch_post(s: Seq<char>, r: Result<DragonFlyArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(dragonfly_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: DragonFlyArch| arch_text(dragonfly_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for DragonFlyArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { dragonflyarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for DragonFlyArch>::try_from | as=try_from_text
    ensures dragonflyarch_post(value@, r)
//@end
//@const expanded :: service::platform::DragonFlyArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for DragonFlyArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::DragonFly, arch), r matches Ok(x) ==> dragonfly_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::DragonFly
//@end
//@fn expanded :: service::platform::<From<DragonFlyArch> for Arch>::from | as=from_dragonfly
    ensures r == dragonfly_arch(value)
//@end
impl XInto<Arch> for DragonFlyArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == dragonfly_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_dragonfly(self) }
}
//@fn expanded :: service::platform::FreeBsdArch::as_str | noreveal
    ensures r@ == arch_text(freebsd_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for FreeBsdArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(freebsd_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for FreeBsdArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(freebsd_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn freebsdarch_post(s: Seq<char>, r: Result<FreeBsdArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(freebsd_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: FreeBsdArch| arch_text(freebsd_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for FreeBsdArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { freebsdarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for FreeBsdArch>::try_from | as=try_from_text
    ensures freebsdarch_post(value@, r)
//@end
//@const expanded :: service::platform::FreeBsdArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for FreeBsdArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::FreeBsd, arch), r matches Ok(x) ==> freebsd_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::FreeBsd
//@end
//@fn expanded :: service::platform::<From<FreeBsdArch> for Arch>::from | as=from_freebsd
    ensures r == freebsd_arch(value)
//@end
impl XInto<Arch> for FreeBsdArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == freebsd_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_freebsd(self) }
}
//@fn expanded :: service::platform::IllumosArch::as_str | noreveal
    ensures r@ == arch_text(illumos_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for IllumosArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(illumos_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for IllumosArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(illumos_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn illumosarch_post(s: Seq<char>, r: Result<IllumosArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(illumos_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: IllumosArch| arch_text(illumos_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for IllumosArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { illumosarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for IllumosArch>::try_from | as=try_from_text
    ensures illumosarch_post(value@, r)
//@end
//@const expanded :: service::platform::IllumosArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for IllumosArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Illumos, arch), r matches Ok(x) ==> illumos_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Illumos
//@end
//@fn expanded :: service::platform::<From<IllumosArch> for Arch>::from | as=from_illumos
    ensures r == illumos_arch(value)
//@end
impl XInto<Arch> for IllumosArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == illumos_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_illumos(self) }
}
//@fn expanded :: service::platform::IOsArch::as_str | noreveal
    ensures r@ == arch_text(ios_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for IOsArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(ios_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for IOsArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(ios_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn iosarch_post(s: Seq<char>, r: Result<IOsArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(ios_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: IOsArch| arch_text(ios_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for IOsArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { iosarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for IOsArch>::try_from | as=try_from_text
    ensures iosarch_post(value@, r)
//@end
//@const expanded :: service::platform::IOsArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for IOsArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::IOs, arch), r matches Ok(x) ==> ios_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::IOs
//@end
//@fn expanded :: service::platform::<From<IOsArch> for Arch>::from | as=from_ios
    ensures r == ios_arch(value)
//@end
impl XInto<Arch> for IOsArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == ios_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_ios(self) }
}
//@fn expanded :: service::platform::JsArch::as_str | noreveal
    ensures r@ == arch_text(js_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for JsArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(js_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for JsArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(js_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn jsarch_post(s: Seq<char>, r: Result<JsArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(js_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: JsArch| arch_text(js_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for JsArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { jsarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for JsArch>::try_from | as=try_from_text
    ensures jsarch_post(value@, r)
//@end
//@const expanded :: service::platform::JsArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for JsArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Js, arch), r matches Ok(x) ==> js_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Js
//@end
//@fn expanded :: service::platform::<From<JsArch> for Arch>::from | as=from_js
    ensures r == js_arch(value)
//@end
impl XInto<Arch> for JsArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == js_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_js(self) }
}
//@fn expanded :: service::platform::LinuxArch::as_str | noreveal
    ensures r@ == arch_text(linux_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for LinuxArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(linux_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for LinuxArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(linux_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn linuxarch_post(s: Seq<char>, r: Result<LinuxArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(linux_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: LinuxArch| arch_text(linux_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for LinuxArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { linuxarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for LinuxArch>::try_from | as=try_from_text
    ensures linuxarch_post(value@, r)
//@end
//@const expanded :: service::platform::LinuxArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for LinuxArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Linux, arch), r matches Ok(x) ==> linux_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Linux
//@end
//@fn expanded :: service::platform::<From<LinuxArch> for Arch>::from | as=from_linux
    ensures r == linux_arch(value)
//@end
impl XInto<Arch> for LinuxArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == linux_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_linux(self) }
}
//@fn expanded :: service::platform::NetBsdArch::as_str | noreveal
    ensures r@ == arch_text(netbsd_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for NetBsdArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(netbsd_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for NetBsdArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(netbsd_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn netbsdarch_post(s: Seq<char>, r: Result<NetBsdArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(netbsd_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: NetBsdArch| arch_text(netbsd_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for NetBsdArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { netbsdarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for NetBsdArch>::try_from | as=try_from_text
    ensures netbsdarch_post(value@, r)
//@end
//@const expanded :: service::platform::NetBsdArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for NetBsdArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::NetBsd, arch), r matches Ok(x) ==> netbsd_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::NetBsd
//@end
//@fn expanded :: service::platform::<From<NetBsdArch> for Arch>::from | as=from_netbsd
    ensures r == netbsd_arch(value)
//@end
impl XInto<Arch> for NetBsdArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == netbsd_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_netbsd(self) }
}
//@fn expanded :: service::platform::OpenBsdArch::as_str | noreveal
    ensures r@ == arch_text(openbsd_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for OpenBsdArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(openbsd_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for OpenBsdArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(openbsd_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn openbsdarch_post(s: Seq<char>, r: Result<OpenBsdArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(openbsd_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: OpenBsdArch| arch_text(openbsd_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for OpenBsdArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { openbsdarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for OpenBsdArch>::try_from | as=try_from_text
    ensures openbsdarch_post(value@, r)
//@end
//@const expanded :: service::platform::OpenBsdArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for OpenBsdArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::OpenBsd, arch), r matches Ok(x) ==> openbsd_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::OpenBsd
//@end
//@fn expanded :: service::platform::<From<OpenBsdArch> for Arch>::from | as=from_openbsd
    ensures r == openbsd_arch(value)
//@end
impl XInto<Arch> for OpenBsdArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == openbsd_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_openbsd(self) }
}
//@fn expanded :: service::platform::Plan9Arch::as_str | noreveal
    ensures r@ == arch_text(plan9_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for Plan9Arch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(plan9_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for Plan9Arch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(plan9_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn plan9arch_post(s: Seq<char>, r: Result<Plan9Arch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(plan9_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: Plan9Arch| arch_text(plan9_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for Plan9Arch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { plan9arch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for Plan9Arch>::try_from | as=try_from_text
    ensures plan9arch_post(value@, r)
//@end
//@const expanded :: service::platform::Plan9Arch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for Plan9Arch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Plan9, arch), r matches Ok(x) ==> plan9_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Plan9
//@end
//@fn expanded :: service::platform::<From<Plan9Arch> for Arch>::from | as=from_plan9
    ensures r == plan9_arch(value)
//@end
impl XInto<Arch> for Plan9Arch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == plan9_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_plan9(self) }
}
//@fn expanded :: service::platform::SolarisArch::as_str | noreveal
    ensures r@ == arch_text(solaris_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for SolarisArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(solaris_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for SolarisArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(solaris_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn solarisarch_post(s: Seq<char>, r: Result<SolarisArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(solaris_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: SolarisArch| arch_text(solaris_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for SolarisArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { solarisarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for SolarisArch>::try_from | as=try_from_text
    ensures solarisarch_post(value@, r)
//@end
//@const expanded :: service::platform::SolarisArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for SolarisArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Solaris, arch), r matches Ok(x) ==> solaris_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Solaris
//@end
//@fn expanded :: service::platform::<From<SolarisArch> for Arch>::from | as=from_solaris
    ensures r == solaris_arch(value)
//@end
impl XInto<Arch> for SolarisArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == solaris_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_solaris(self) }
}
//@fn expanded :: service::platform::WasiP1Arch::as_str | noreveal
    ensures r@ == arch_text(wasip1_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for WasiP1Arch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(wasip1_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for WasiP1Arch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(wasip1_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn wasip1arch_post(s: Seq<char>, r: Result<WasiP1Arch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(wasip1_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: WasiP1Arch| arch_text(wasip1_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for WasiP1Arch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { wasip1arch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for WasiP1Arch>::try_from | as=try_from_text
    ensures wasip1arch_post(value@, r)
//@end
//@const expanded :: service::platform::WasiP1Arch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for WasiP1Arch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::WasiP1, arch), r matches Ok(x) ==> wasip1_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::WasiP1
//@end
//@fn expanded :: service::platform::<From<WasiP1Arch> for Arch>::from | as=from_wasip1
    ensures r == wasip1_arch(value)
//@end
impl XInto<Arch> for WasiP1Arch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == wasip1_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_wasip1(self) }
}
//@fn expanded :: service::platform::WindowsArch::as_str | noreveal
    ensures r@ == arch_text(windows_arch(*self))
//@proof header
    hide(join);
//@proof start
    proof { lit_arch(); }
//@end
//@fn expanded :: service::platform::<Display for WindowsArch>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { arch_text(windows_arch(*self)) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for WindowsArch>::as_ref | as=as_ref_str
    ensures r@ == arch_text(windows_arch(*self))
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn windowsarch_post(s: Seq<char>, r: Result<WindowsArch, ParseError>) -> bool {
    &&& r matches Ok(x) ==> arch_text(windows_arch(x)) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: WindowsArch| arch_text(windows_arch(x)) != s
}
//@fn expanded :: service::platform::<FromStr for WindowsArch>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { windowsarch_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_arch();  }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for WindowsArch>::try_from | as=try_from_text
    ensures windowsarch_post(value@, r)
//@end
//@const expanded :: service::platform::WindowsArch::OS
//@fn expanded :: service::platform::<TryFrom<Arch> for WindowsArch>::try_from | as=try_from_arch
    ensures r is Ok <==> supports(Os::Windows, arch), r matches Ok(x) ==> windows_arch(x) == arch, r matches Err(e) ==> e.arch == arch && e.os == Os::Windows
//@end
//@fn expanded :: service::platform::<From<WindowsArch> for Arch>::from | as=from_windows
    ensures r == windows_arch(value)
//@end
impl XInto<Arch> for WindowsArch {
    open spec fn x_into_post(self, u: Arch) -> bool { u == windows_arch(self) }
    fn x_into(self) -> (u: Arch) { Arch::from_windows(self) }
}
//@fn expanded :: service::platform::Platform::as_str | noreveal
    ensures r@ == platform_text(*self)
//@proof header
    hide(join);
//@proof start
    proof { lit_all(); }
//@end
//@fn expanded :: service::platform::<Display for Platform>::fmt | trait=XDisplay | as=x_fmt | extra=open spec fn x_disp(&self) -> Seq<char> { platform_text(*self) }
//@end
//@fn expanded :: service::platform::<AsRef<str> for Platform>::as_ref | as=as_ref_str
    ensures r@ == platform_text(*self)
//@end
/// exactly the texts of the values, with the value whose text it is
pub open spec fn platform_post(s: Seq<char>, r: Result<Platform, ParseError>) -> bool {
    &&& r matches Ok(x) ==> platform_text(x) == s
    &&& r matches Err(e) ==> e.0@ == s && forall|x: Platform| platform_text(x) != s
}
//@fn expanded :: service::platform::<FromStr for Platform>::from_str | trait=XFromStr | as=x_from_str | litonly | extra=type E = ParseError; open spec fn x_parse_post(s: Seq<char>, r: Result<Self, Self::E>) -> bool { platform_post(s, r) }
//@proof header
    hide(join);
//@proof start
    proof { lit_all(); if no_platform(s@) { lemma_no_platform(s@); } }
//@end
//@fn expanded :: service::platform::<TryFrom<&str> for Platform>::try_from | as=try_from_text
    ensures platform_post(value@, r)
//@end
//@fn expanded :: service::platform::Platform::os
    ensures r == os_of(*self)
//@end
//@fn expanded :: service::platform::Platform::arch
    ensures r == arch_of(*self)
//@end
//@fn expanded :: service::platform::<From<Os> for Platform>::from | as=from_os
    ensures os_of(r) == value, arch_of(r) is None
//@end
// ------------------------------------------------------------ theorems
/// different architectures have different texts
pub proof fn theorem_arch_unique(a: Arch, b: Arch)
    requires arch_text(a) == arch_text(b),
    ensures a == b,
{
    reveal_strlit("386"); reveal_strlit("amd64"); reveal_strlit("arm"); reveal_strlit("arm64"); reveal_strlit("loong64"); reveal_strlit("mips"); reveal_strlit("mipsle"); reveal_strlit("mips64"); reveal_strlit("mips64le"); reveal_strlit("ppc64"); reveal_strlit("ppc64le"); reveal_strlit("riscv64"); reveal_strlit("s390x"); reveal_strlit("wasm"); reveal_strlit("v6"); reveal_strlit("v7"); reveal_strlit("v8");
    let (s, t) = (arch_text(a), arch_text(b));
    assert(s.len() == t.len());
    assert(forall|i: int| 0 <= i < s.len() ==> s[i] == t[i]);
    assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2]);
    if s.len() > 3 { assert(s[3] == t[3]); }
    if s.len() > 4 { assert(s[4] == t[4]); }
    if s.len() > 5 { assert(s[5] == t[5]); }
    if s.len() > 7 { assert(s[7] == t[7]); }
}
pub proof fn theorem_os_unique(a: Os, b: Os)
    requires os_text(a) == os_text(b),
    ensures a == b,
{
    reveal_strlit("aix"); reveal_strlit("android"); reveal_strlit("darwin"); reveal_strlit("dragonfly"); reveal_strlit("freebsd"); reveal_strlit("illumos"); reveal_strlit("ios"); reveal_strlit("js"); reveal_strlit("linux"); reveal_strlit("netbsd"); reveal_strlit("openbsd"); reveal_strlit("plan9"); reveal_strlit("solaris"); reveal_strlit("wasip1"); reveal_strlit("windows");
    let (s, t) = (os_text(a), os_text(b));
    assert(s.len() == t.len());
    assert(s[0] == t[0] && s[1] == t[1]);
    if s.len() > 2 { assert(s[2] == t[2]); }
}
pub proof fn lemma_os_no_slash(o: Os)
    ensures forall|i: int| 0 <= i < os_text(o).len() ==> os_text(o)[i] != '/',
{
    reveal_strlit("aix"); reveal_strlit("android"); reveal_strlit("darwin"); reveal_strlit("dragonfly"); reveal_strlit("freebsd"); reveal_strlit("illumos"); reveal_strlit("ios"); reveal_strlit("js"); reveal_strlit("linux"); reveal_strlit("netbsd"); reveal_strlit("openbsd"); reveal_strlit("plan9"); reveal_strlit("solaris"); reveal_strlit("wasip1"); reveal_strlit("windows");
}
/// a text stands for at most one operating system and architecture
pub proof fn theorem_text_unique(o: Os, a: Option<Arch>, p: Os, b: Option<Arch>)
    requires text_of(o, a) == text_of(p, b),
    ensures o == p, a == b,
{
    lemma_os_no_slash(o);
    lemma_os_no_slash(p);
    let ra = match a { None => Seq::empty(), Some(x) => slash() + arch_text(x) };
    let rb = match b { None => Seq::empty(), Some(x) => slash() + arch_text(x) };
    assert(text_of(o, a) =~= os_text(o) + ra);
    assert(text_of(p, b) =~= os_text(p) + rb);
    lemma_cut(os_text(o), ra, os_text(p), rb);
    theorem_os_unique(o, p);
    if a is Some && b is Some {
        assert(arch_text(a->0) =~= ra.subrange(1, ra.len() as int));
        assert(arch_text(b->0) =~= rb.subrange(1, rb.len() as int));
        theorem_arch_unique(a->0, b->0);
    }
}
/// a platform is what it stands for, so different platforms print differently, and what is printed reads back
pub proof fn theorem_platform(p: Platform, q: Platform)
    requires platform_text(p) == platform_text(q),
    ensures p == q,
{
    theorem_text_unique(os_of(p), arch_of(p), os_of(q), arch_of(q));
}
pub proof fn theorem_round_trip(p: Platform, r: Result<Platform, ParseError>)
    requires platform_post(platform_text(p), r),
    ensures r is Ok, r->Ok_0 == p,
{
    if r is Ok { theorem_platform(r->Ok_0, p); }
}
/// exactly the supported combinations are platforms
pub proof fn theorem_supported(o: Os, a: Arch)
    ensures supports(o, a) <==> exists|p: Platform| os_of(p) == o && arch_of(p) == Some(a),
{
    if supports(o, a) {
        let p = match o {
            Os::Aix => Platform::Aix(Some(match a { Arch::Ppc64 => AixArch::Ppc64, _ => arbitrary() })),
            Os::Android => Platform::Android(Some(match a { Arch::_386 => AndroidArch::_386, Arch::Amd64 => AndroidArch::Amd64, Arch::Arm(y) => AndroidArch::Arm(y), Arch::Arm64(y) => AndroidArch::Arm64(y), _ => arbitrary() })),
            Os::Darwin => Platform::Darwin(Some(match a { Arch::Amd64 => DarwinArch::Amd64, Arch::Arm64(y) => DarwinArch::Arm64(y), _ => arbitrary() })),
            Os::DragonFly => Platform::DragonFly(Some(match a { Arch::Amd64 => DragonFlyArch::Amd64, _ => arbitrary() })),
            Os::FreeBsd => Platform::FreeBsd(Some(match a { Arch::_386 => FreeBsdArch::_386, Arch::Amd64 => FreeBsdArch::Amd64, Arch::Arm(y) => FreeBsdArch::Arm(y), _ => arbitrary() })),
            Os::Illumos => Platform::Illumos(Some(match a { Arch::Amd64 => IllumosArch::Amd64, _ => arbitrary() })),
            Os::IOs => Platform::IOs(Some(match a { Arch::Arm64(y) => IOsArch::Arm64(y), _ => arbitrary() })),
            Os::Js => Platform::Js(Some(match a { Arch::Wasm => JsArch::Wasm, _ => arbitrary() })),
            Os::Linux => Platform::Linux(Some(match a { Arch::_386 => LinuxArch::_386, Arch::Amd64 => LinuxArch::Amd64, Arch::Arm(y) => LinuxArch::Arm(y), Arch::Arm64(y) => LinuxArch::Arm64(y), Arch::Loong64 => LinuxArch::Loong64, Arch::Mips => LinuxArch::Mips, Arch::MipsLe => LinuxArch::MipsLe, Arch::Mips64 => LinuxArch::Mips64, Arch::Mips64Le => LinuxArch::Mips64Le, Arch::Ppc64 => LinuxArch::Ppc64, Arch::Ppc64Le => LinuxArch::Ppc64Le, Arch::RiscV64 => LinuxArch::RiscV64, Arch::S390x => LinuxArch::S390x, _ => arbitrary() })),
            Os::NetBsd => Platform::NetBsd(Some(match a { Arch::_386 => NetBsdArch::_386, Arch::Amd64 => NetBsdArch::Amd64, Arch::Arm(y) => NetBsdArch::Arm(y), _ => arbitrary() })),
            Os::OpenBsd => Platform::OpenBsd(Some(match a { Arch::_386 => OpenBsdArch::_386, Arch::Amd64 => OpenBsdArch::Amd64, Arch::Arm(y) => OpenBsdArch::Arm(y), Arch::Arm64(y) => OpenBsdArch::Arm64(y), _ => arbitrary() })),
            Os::Plan9 => Platform::Plan9(Some(match a { Arch::_386 => Plan9Arch::_386, Arch::Amd64 => Plan9Arch::Amd64, Arch::Arm(y) => Plan9Arch::Arm(y), _ => arbitrary() })),
            Os::Solaris => Platform::Solaris(Some(match a { Arch::Amd64 => SolarisArch::Amd64, _ => arbitrary() })),
            Os::WasiP1 => Platform::WasiP1(Some(match a { Arch::Wasm => WasiP1Arch::Wasm, _ => arbitrary() })),
            Os::Windows => Platform::Windows(Some(match a { Arch::_386 => WindowsArch::_386, Arch::Amd64 => WindowsArch::Amd64, Arch::Arm(y) => WindowsArch::Arm(y), Arch::Arm64(y) => WindowsArch::Arm64(y), _ => arbitrary() })),
        };
        assert(os_of(p) == o && arch_of(p) == Some(a));
    }
}
//@include to_string.inc
//@include text_doc.inc
//@include from_str_doc.inc
// the document form of ArmVariant
//@fn expanded :: service::platform::<Serialize for ArmVariant>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for ArmVariant>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<ArmVariant>(deserializer@, r)
//@end
// the document form of Arm64Variant
//@fn expanded :: service::platform::<Serialize for Arm64Variant>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for Arm64Variant>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Arm64Variant>(deserializer@, r)
//@end
// the document form of Arch
//@fn expanded :: service::platform::<Serialize for Arch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for Arch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Arch>(deserializer@, r)
//@end
// the document form of Os
//@fn expanded :: service::platform::<Serialize for Os>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for Os>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Os>(deserializer@, r)
//@end
// the document form of AixArch
//@fn expanded :: service::platform::<Serialize for AixArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for AixArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<AixArch>(deserializer@, r)
//@end
// the document form of AndroidArch
//@fn expanded :: service::platform::<Serialize for AndroidArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for AndroidArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<AndroidArch>(deserializer@, r)
//@end
// the document form of DarwinArch
//@fn expanded :: service::platform::<Serialize for DarwinArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for DarwinArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<DarwinArch>(deserializer@, r)
//@end
// the document form of DragonFlyArch
//@fn expanded :: service::platform::<Serialize for DragonFlyArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for DragonFlyArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<DragonFlyArch>(deserializer@, r)
//@end
// the document form of FreeBsdArch
//@fn expanded :: service::platform::<Serialize for FreeBsdArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for FreeBsdArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<FreeBsdArch>(deserializer@, r)
//@end
// the document form of IllumosArch
//@fn expanded :: service::platform::<Serialize for IllumosArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for IllumosArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<IllumosArch>(deserializer@, r)
//@end
// the document form of IOsArch
//@fn expanded :: service::platform::<Serialize for IOsArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for IOsArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<IOsArch>(deserializer@, r)
//@end
// the document form of JsArch
//@fn expanded :: service::platform::<Serialize for JsArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for JsArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<JsArch>(deserializer@, r)
//@end
// the document form of LinuxArch
//@fn expanded :: service::platform::<Serialize for LinuxArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for LinuxArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<LinuxArch>(deserializer@, r)
//@end
// the document form of NetBsdArch
//@fn expanded :: service::platform::<Serialize for NetBsdArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for NetBsdArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<NetBsdArch>(deserializer@, r)
//@end
// the document form of OpenBsdArch
//@fn expanded :: service::platform::<Serialize for OpenBsdArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for OpenBsdArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<OpenBsdArch>(deserializer@, r)
//@end
// the document form of Plan9Arch
//@fn expanded :: service::platform::<Serialize for Plan9Arch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for Plan9Arch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Plan9Arch>(deserializer@, r)
//@end
// the document form of SolarisArch
//@fn expanded :: service::platform::<Serialize for SolarisArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for SolarisArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<SolarisArch>(deserializer@, r)
//@end
// the document form of WasiP1Arch
//@fn expanded :: service::platform::<Serialize for WasiP1Arch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for WasiP1Arch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<WasiP1Arch>(deserializer@, r)
//@end
// the document form of WindowsArch
//@fn expanded :: service::platform::<Serialize for WindowsArch>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for WindowsArch>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<WindowsArch>(deserializer@, r)
//@end
// the document form of Platform
//@fn expanded :: service::platform::<Serialize for Platform>::serialize | subst=S:XTextSer | retty=Result<XTextOk, XErr>
    ensures r matches Ok(o) ==> o@ == XTextNode::Text(self.x_disp())
//@end
//@fn expanded :: service::platform::<Deserialize for Platform>::deserialize | subst=D:XTextDe | retty=Result<Self, XErr>
    ensures str_doc::<Platform>(deserializer@, r)
//@end
} // verus!
fn main() {}
