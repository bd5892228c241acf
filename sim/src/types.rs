//! The partition types that are known, as of the tables published for them: name, GUID, system.

use crate::env::*;
use crate::model::rand_uuid;
use crate::choice::Src;
use gpt::partition_types::{OperatingSystem, Type};
use std::collections::BTreeMap;
use std::str::FromStr;
use std::sync::OnceLock;
use uuid::Uuid;

const BASIC: Uuid = Uuid::from_u128(0xEBD0A0A2_B9E5_4433_87C0_68B6B72699C7);

pub const KNOWN: &[(&str, u128, &str)] = &[
    ("UNUSED", 0x00000000_00000000_00000000_00000000, "None"),
    ("MBR", 0x024dee41_33e711d3_9d690008_c781f39f, "None"),
    ("EFI", 0xc12a7328_f81f11d2_ba4b00a0_c93ec93b, "None"),
    ("BIOS", 0x21686148_64496e6f_744e6565_64454649, "None"),
    ("FLASH", 0xd3bfe2de_3daf11df_ba40e3a5_56d89593, "None"),
    ("SONY_BOOT", 0xf4019732_066e4e12_8273346c_5641494f, "None"),
    ("LENOVO_BOOT", 0xbfbfafe7_a34f448a_9a5b6213_eb736c22, "None"),
    ("MICROSOFT_RESERVED", 0xe3c9e316_0b5c4db8_817df92d_f00215ae, "Windows"),
    ("BASIC", 0xebd0a0a2_b9e54433_87c068b6_b72699c7, "Windows"),
    ("WINDOWS_METADATA", 0x5808c8aa_7e8f42e0_85d2e1e9_0434cfb3, "Windows"),
    ("WINDOWS_DATA", 0xaf9b60a0_14314f62_bc683311_714a69ad, "Windows"),
    ("WINDOWS_RECOVERY", 0xde94bba4_06d14d40_a16abfd5_0179d6ac, "Windows"),
    ("WINDOWS_PARALLEL", 0x37affc90_ef7d4e96_91c32d7a_e055b174, "Windows"),
    ("WINDOWS_STORAGESPACES", 0xe75caf8f_f6804cee_afa3b001_e56efc2d, "Windows"),
    ("HPUNIX_DATA", 0x75894c1e_3aeb11d3_b7c17b03_a0000000, "HpUnix"),
    ("HPUNIX_SERVICE", 0xe2a1e728_32e311d6_a6827b03_a0000000, "HpUnix"),
    ("LINUX_FS", 0x0fc63daf_84834772_8e793d69_d8477de4, "Linux"),
    ("LINUX_RAID", 0xa19d880f_05fc4d3b_a006743f_0f84911e, "Linux"),
    ("LINUX_ROOT_X86", 0x44479540_f29741b2_9af7d131_d5f0458a, "Linux"),
    ("LINUX_ROOT_X64", 0x4f68bce3_e8cd4db1_96e7fbca_f984b709, "Linux"),
    ("LINUX_ROOT_ARM_32", 0x69dad710_2ce44e3c_b16c21a1_d49abed3, "Linux"),
    ("LINUX_ROOT_ARM_64", 0xb921b045_1df041c3_af444c6f_280d3fae, "Linux"),
    ("LINUX_SWAP", 0x0657fd6d_a4ab43c4_84e50933_c84b4f4f, "Linux"),
    ("LINUX_LVM", 0xe6d6d379_f50744c2_a23c238f_2a3df928, "Linux"),
    ("LINUX_HOME", 0x933ac7e1_2eb44f13_b8440e14_e2aef915, "Linux"),
    ("LINUX_SRV", 0x3b8f8425_20e04f3b_907f1a25_a76f98e8, "Linux"),
    ("LINUX_DMCRYPT", 0x7ffec5c9_2d0049b7_89413ea1_0a5586b7, "Linux"),
    ("LINUX_LUKS", 0xca7d7ccb_63ed4c53_861c1742_536059cc, "Linux"),
    ("LINUX_RESERVED", 0x8da63339_000760c0_c436083a_c8230908, "Linux"),
    ("FREEBSD_DATA", 0x516e7cb4_6ecf11d6_8ff80002_2d09712b, "FreeBsd"),
    ("FREEBSD_BOOT", 0x83bd6b9d_7f4111dc_be0b0015_60b84f0f, "FreeBsd"),
    ("FREEBSD_SWAP", 0x516e7cb5_6ecf11d6_8ff80002_2d09712b, "FreeBsd"),
    ("FREEBSD_UFS", 0x516e7cb6_6ecf11d6_8ff80002_2d09712b, "FreeBsd"),
    ("FREEBSD_VINIUM", 0x516e7cb8_6ecf11d6_8ff80002_2d09712b, "FreeBsd"),
    ("FREEBSD_ZFS", 0x516e7cba_6ecf11d6_8ff80002_2d09712b, "FreeBsd"),
    ("DRAGONFLY_DATA", 0x3d48ce54_1d1611dc_86960130_1bb8a9f5, "DragonFlyBsd"),
    ("MACOS_HFSPLUS", 0x48465300_000011aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_UFS", 0x55465300_000011aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_ZFS", 0x6a898cc3_1dd211b2_99a60800_20736631, "MacOs"),
    ("MACOS_RAID", 0x52414944_000011aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_RAID_OFFLINE", 0x52414944_5f4f11aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_RECOVERY", 0x426f6f74_000011aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_LABEL", 0x4c616265_6c0011aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_TV_RECOVERY", 0x5265636f_766511aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_CORE", 0x53746f72_616711aa_aa110030_6543ecac, "MacOs"),
    ("MACOS_SOFTRAID_STATUS", 0xb6fa30da_92d24a9a_96f1871e_c6486200, "MacOs"),
    ("MACOS_SOFTRAID_SCRATCH", 0x2e313465_19b9463f_81268a79_93773801, "MacOs"),
    ("MACOS_SOFTRAID_VOLUME", 0xfa709c7e_65b14593_bfd5e71d_61de9b02, "MacOs"),
    ("MACOS_SOFTRAID_CACHE", 0xbbba6df5_f46f4a89_8f598765_b2727503, "MacOs"),
    ("MACOS_APFS", 0x7c3457ef_000011aa_aa110030_6543ecac, "MacOs"),
    ("SOLARIS_BOOT", 0x6a82cb45_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_ROOT", 0x6a85cf4d_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_SWAP", 0x6a87c46f_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_BACKUP", 0x6a8b642b_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_VAR", 0x6a8ef2e9_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_HOME", 0x6a90ba39_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_ALT", 0x6a9283a5_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_RESERVED1", 0x6a945a3b_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_RESERVED2", 0x6a9630d1_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_RESERVED3", 0x6a980767_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_RESERVED4", 0x6a96237f_1dd211b2_99a60800_20736631, "Solaris"),
    ("SOLARIS_RESERVED5", 0x6a8d2ac7_1dd211b2_99a60800_20736631, "Solaris"),
    ("NETBSD_SWAP", 0x49f48d32_b10e11dc_b99b0019_d1879648, "NetBsd"),
    ("NETBSD_FFS", 0x49f48d5a_b10e11dc_b99b0019_d1879648, "NetBsd"),
    ("NETBSD_LFS", 0x49f48d82_b10e11dc_b99b0019_d1879648, "NetBsd"),
    ("NETBSD_RAID", 0x49f48daa_b10e11dc_b99b0019_d1879648, "NetBsd"),
    ("NETBSD_CONCAT", 0x2db519c4_b10f11dc_b99b0019_d1879648, "NetBsd"),
    ("NETBSD_ENCRYPTED", 0x2db519ec_b10f11dc_b99b0019_d1879648, "NetBsd"),
    ("CHROME_KERNEL", 0xfe3a2a5d_4f3241a7_b725accc_3285a309, "Chrome"),
    ("CHROME_ROOTFS", 0x3cb8e202_3b7e47dd_8a3c7ff2_a13cfcec, "Chrome"),
    ("CHROME_FUTURE", 0x2e0a753d_9e4843b0_8337b151_92cb1b5e, "Chrome"),
    ("CHROME_RWFW", 0xcab6e88e_abf34102_a07ad4bb_9be3c1d3, "Chrome"),
    ("COREOS_USR", 0x5dfbf5f4_28484bac_aa5e0d9a_20b745a6, "CoreOs"),
    ("COREOS_ROOTFS_RESIZE", 0x3884dd41_85824404_b9a8e9b8_4f2df50e, "CoreOs"),
    ("COREOS_OEM", 0xc95dc21a_df0e4340_8d7b26cb_fa9a03e0, "CoreOs"),
    ("COREOS_ROOT_RAID", 0xbe9067b9_ea494f15_b4f6f36f_8c9e1818, "CoreOs"),
    ("HAIKU_BFS", 0x42465331_3ba310f1_802a4861_696b7521, "Haiku"),
    ("MIDNIGHT_BOOT", 0x85d5e45e_237c11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("MIDNIGHT_DATA", 0x85d5e45a_237c11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("MIDNIGHT_SWAP", 0x85d5e45b_237c11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("MIDNIGHT_UFS", 0x0394ef8b_237e11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("MIDNIGHT_VINIUM", 0x85d5e45c_237c11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("MIDNIGHT_ZFS", 0x85d5e45d_237c11e1_b4b3e89a_8f7fc3a7, "MidnightBsd"),
    ("CEPH_JOURNAL", 0x45b0969e_9b034f30_b4c6b4b8_0ceff106, "Ceph"),
    ("CEPH_CRYPT_JOURNAL", 0x45b0969e_9b034f30_b4c65ec0_0ceff106, "Ceph"),
    ("CEPH_OSD", 0x4fbd7e29_9d2541b8_afd0062c_0ceff05d, "Ceph"),
    ("CEPH_CRYPT", 0x4fbd7e29_9d2541b8_afd05ec0_0ceff05d, "Ceph"),
    ("CEPH_DISK_CREATION", 0x89c57f98_2fe54dc0_89c1f3ad_0ceff2be, "Ceph"),
    ("CEPH_CRYPT_CREATION", 0x89c57f98_2fe54dc0_89c15ec0_0ceff2be, "Ceph"),
    ("OPENBSD_DATA", 0x824cc7a0_36a811e3_890a9525_19ad3f61, "OpenBsd"),
    ("QNX_FS", 0xcef5a9ad_73bc4601_89f3cdee_eee321a1, "QNX"),
    ("PLAN9_PART", 0xc91818f9_802547af_89d2f030_d7000c2c, "Plan9"),
    ("VMWARE_COREDUMP", 0x9d275380_40ad11db_bf97000c_2911d1b8, "VmWare"),
    ("VMWARE_VMFS", 0xaa31e02a_400f11db_9590000c_2911d1b8, "VmWare"),
    ("VMWARE_RESERVED", 0x9198effc_31c011db_8f78000c_2911d1b8, "VmWare"),
    ("ANDROID_BOOTLOADER", 0x2568845d_23324675_bc398fa5_a4748d15, "Android"),
    ("ANDROID_BOOTLOADER2", 0x114eaffe_15524022_b26e9b05_3604cf84, "Android"),
    ("ANDROID_BOOT", 0x49a4d17f_93a345c1_a0def50b_2ebe2599, "Android"),
    ("ANDROID_RECOVERY", 0x4177c722_9e924aab_86444350_2bfd5506, "Android"),
    ("ANDROID_MISC", 0xef32a33b_a409486c_91419ffb_711f6266, "Android"),
    ("ANDROID_META", 0x20ac26be_20b711e3_84c56cfd_b94711e9, "Android"),
    ("ANDROID_SYSTEM", 0x38f428e6_d326425d_91406e0e_a133647c, "Android"),
    ("ANDROID_CACHE", 0xa893ef21_e428470a_9e550668_fd91a2d9, "Android"),
    ("ANDROID_DATA", 0xdc76dda9_5ac1491c_af42a825_91580c0d, "Android"),
    ("ANDROID_PERSISTENT", 0xebc597d0_20534b15_8b64e0aa_c75f4db1, "Android"),
    ("ANDROID_FACTORY", 0x8f68cc74_c5e548da_be91a0c8_c15e9c80, "Android"),
    ("ANDROID_FASTBOOT", 0x767941d0_208511e3_ad3b6cfd_b94711e9, "Android"),
    ("ANDROID_OEM", 0xac6d7924_eb714df8_b48de267_b27148ff, "Android"),
    ("ONIE_BOOT", 0x7412f7d5_a1564b13_81dc8671_74929325, "Onie"),
    ("ONIE_CONFIG", 0xd4e6e2cd_446946f3_b5cb1bff_57afc149, "Onie"),
    ("PPC_BOOT", 0x9e1a2d38_c6124316_aa268b49_521e5a8b, "PowerPc"),
    ("FREEDESK_BOOT", 0xbc13c2ff_59e64262_a352b275_fd6f7172, "FreeDesktop"),
    ("ATARI_DATA", 0x734e5afe_f61a11e6_bc649236_1f002671, "Atari"),
];

fn os(name: &str) -> OperatingSystem {
    match name {
        "Android" => OperatingSystem::Android,
        "Atari" => OperatingSystem::Atari,
        "Ceph" => OperatingSystem::Ceph,
        "Chrome" => OperatingSystem::Chrome,
        "CoreOs" => OperatingSystem::CoreOs,
        "DragonFlyBsd" => OperatingSystem::DragonFlyBsd,
        "FreeBsd" => OperatingSystem::FreeBsd,
        "FreeDesktop" => OperatingSystem::FreeDesktop,
        "Haiku" => OperatingSystem::Haiku,
        "HpUnix" => OperatingSystem::HpUnix,
        "Linux" => OperatingSystem::Linux,
        "MacOs" => OperatingSystem::MacOs,
        "MidnightBsd" => OperatingSystem::MidnightBsd,
        "NetBsd" => OperatingSystem::NetBsd,
        "Onie" => OperatingSystem::Onie,
        "OpenBsd" => OperatingSystem::OpenBsd,
        "Plan9" => OperatingSystem::Plan9,
        "PowerPc" => OperatingSystem::PowerPc,
        "QNX" => OperatingSystem::QNX,
        "Solaris" => OperatingSystem::Solaris,
        "VmWare" => OperatingSystem::VmWare,
        "Windows" => OperatingSystem::Windows,
        _ => OperatingSystem::None,
    }
}

/// The system a type belongs to.
pub fn system(guid: &Uuid) -> OperatingSystem {
    static M: OnceLock<BTreeMap<u128, OperatingSystem>> = OnceLock::new();
    let m = M.get_or_init(|| KNOWN.iter().map(|t| (t.1, os(t.2))).collect());
    m.get(&guid.as_u128()).cloned().unwrap_or(OperatingSystem::None)
}

fn any_case(src: &mut Src, s: &str) -> String {
    match src.choose(3) {
        0 => s.to_string(),
        1 => s.to_ascii_lowercase(),
        _ => {
            let r = src.bits();
            let up = |i: usize| r >> (i % 64) & 1 == 1;
            s.chars().enumerate().map(|(i, c)| if up(i) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
        }
    }
}

/// A type nobody knows, maybe almost the same as one that is known.
pub fn unknown(src: &mut Src) -> Uuid {
    match src.choose(3) {
        0 => {
            let k = src.pick(KNOWN).1;
            let at = src.choose(128);
            Uuid::from_u128(k ^ 1 << at)
        }
        1 => {
            // halves of two
            let (a, b) = (src.pick(KNOWN).1, src.pick(KNOWN).1);
            Uuid::from_u128(a >> 64 << 64 | b & u64::MAX as u128)
        }
        _ => rand_uuid(src),
    }
}

/// A partition type, asked for in one of the ways the library offers.
pub fn request(ctx: &mut Ctx) -> Type {
    let src = &mut ctx.src;
    let (name, guid) = match src.choose_weighted(&[6, 2]) {
        0 => {
            let k = src.pick(KNOWN);
            (Some(k.0), Uuid::from_u128(k.1))
        }
        _ => (None, unknown(src)),
    };
    let (name, guid) = if guid.is_nil() { (Some("BASIC"), BASIC) } else { (name, guid) };
    let how = src.choose(8);
    let (by, text) = match (how, name) {
        (0 | 1, Some(n)) => ("name", any_case(src, n)),
        (0..=2, _) => ("GUID", any_case(src, &guid.hyphenated().to_string())),
        (3, _) => {
            let simple = guid.simple().to_string();
            ("simple GUID", any_case(src, &simple))
        }
        (4, _) => ("braced GUID", guid.braced().to_string()),
        (5, _) => ("URN", guid.urn().to_string()),
        _ => ("Uuid", String::new()),
    };
    let want = Type { guid, os: system(&guid) };
    let got = guarded(|| {
        Ok(match by {
            "Uuid" => Ok(Type::from(guid)),
            "name" => Type::from_name(&text),
            _ => Type::from_str(&text),
        })
    });
    match got {
        Ok(Ok(t)) if t == want => {}
        other => ctx.fail("X01", "type not resolved", || format!("{by} {text:?} of {want:?} became {other:?}")),
    }
    if ctx.src.chance(1, 6) {
        // something that is neither
        let base = if by == "Uuid" { guid.hyphenated().to_string() } else { text };
        let bad = match ctx.src.choose(12) {
            0 => format!("{base}~"),
            1 => base.chars().skip(1).collect(),
            2 => base.replace(|c: char| c.is_ascii_digit() || c == '_', "?"),
            3 => String::new(),
            4 => format!(" {base}"),
            5 => format!("{base} "),
            6 => format!("{base}\n"),
            7 => format!("{{{base}"),
            8 => format!("{base}}}"),
            9 => base.replace('_', "-"),
            10 => format!("{base}{base}"),
            // letters that become these in upper or lower case, or look like them
            _ => base
                .to_ascii_lowercase()
                .replace('i', "\u{131}")
                .replace('s', "\u{17f}")
                .replace('k', "\u{212a}")
                .replace('a', "\u{ff41}"),
        };
        // without its first letter the name of one type might be the name of another
        let taken = bad == base || KNOWN.iter().any(|k| k.0.eq_ignore_ascii_case(&bad)) || Uuid::try_parse(&bad).is_ok();
        if !taken {
            match guarded(|| Ok((Type::from_str(&bad), Type::from_name(&bad)))) {
                Ok((Err(_), Err(_))) => {}
                other => ctx.fail("X01", "something that is not a type was accepted", || format!("{bad:?}: {other:?}")),
            }
        }
    }
    ctx.probe("type resolved");
    want
}
