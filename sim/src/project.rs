//! Projection of the library's values onto the canonical form, through the public API only.
//! Values behind private fields are read from their Debug text.
use crate::model::E;
use crate::val::*;
use dmidecode::bitfield::BitField;
use dmidecode::structures::*;
use dmidecode::{InfoType, MalformedStructureError, Structure};
use std::fmt::Debug;

/// Checks that returned text lies inside the captured buffer (empty text has no bytes).
pub struct Bounds {
    pub lo: usize,
    pub hi: usize,
    pub escaped: bool,
}
impl Bounds {
    pub fn of(buf: &[u8]) -> Self {
        Bounds { lo: buf.as_ptr() as usize, hi: buf.as_ptr() as usize + buf.len(), escaped: false }
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let p = b.as_ptr() as usize;
        if !b.is_empty() && (p < self.lo || p + b.len() > self.hi) {
            self.escaped = true;
        }
    }
    pub fn t(&mut self, s: &str) -> V {
        self.bytes(s.as_bytes());
        // do not read bytes that are known to be outside
        if self.escaped {
            return V::T("<outside the buffer>".into());
        }
        V::T(s.to_string())
    }
    pub fn ot(&mut self, s: Option<&str>) -> V {
        match s {
            Some(s) => self.t(s),
            None => V::N,
        }
    }
}

pub fn c(x: &impl Debug) -> V {
    V::C(format!("{x:?}"))
}
pub fn oc<T: Debug>(x: &Option<T>) -> V {
    x.as_ref().map_or(V::N, c)
}
pub fn ints(text: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let mut cur: Option<u64> = None;
    let mut prev_word = false;
    for ch in text.chars() {
        match ch.to_digit(10) {
            Some(d) if cur.is_some() || !prev_word => cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add(d as u64)),
            _ => {
                if let Some(x) = cur.take() {
                    v.push(x);
                }
                prev_word = ch.is_alphanumeric() || ch == '_';
            }
        }
    }
    v.extend(cur);
    v
}

/// Values of a one-level `Name { a: x, b: y }` Debug text by the given names; by position if a name is unknown.
fn debug_fields(text: &str, names: &[&str]) -> Vec<String> {
    let inner = text.find('{').map_or(text, |i| &text[i + 1..]);
    let inner = inner.trim_end().trim_end_matches('}');
    let mut parts = Vec::new();
    let (mut depth, mut start) = (0, 0);
    for (i, ch) in inner.char_indices() {
        match ch {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            ',' if depth == 0 => {
                parts.push(&inner[start..i]);
                start = i + 1;
            }
            _ => (),
        }
    }
    if !inner[start..].trim().is_empty() {
        parts.push(&inner[start..]);
    }
    let kv: Vec<(String, String)> = parts
        .iter()
        .map(|p| match p.split_once(": ") {
            Some((k, v)) => (k.trim().to_string(), v.trim().to_string()),
            None => (String::new(), p.trim().to_string()),
        })
        .collect();
    let by_name: Option<Vec<String>> =
        names.iter().map(|n| kv.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone())).collect();
    by_name.unwrap_or_else(|| kv.into_iter().map(|(_, v)| v).collect())
}
fn word(s: &str) -> V {
    match s {
        "true" => V::U(1),
        "false" => V::U(0),
        _ => match s.parse::<u64>() {
            Ok(n) => V::U(n),
            Err(_) => V::C(s.to_string()),
        },
    }
}

pub fn element(e: &enclosure::ContainedElement) -> V {
    V::R(debug_fields(&format!("{e:?}"), &["type_", "minimum", "maximum"]).iter().map(|s| word(s)).collect())
}
fn device_function(df: &system_slots::DeviceAndFunctionNumber) -> V {
    let byte = u8::from(*df);
    let i = ints(&format!("{df:?}"));
    // device and function, however they are stored
    let ok = i == [(byte >> 3) as u64, (byte & 7) as u64] || i == [byte as u64];
    if ok {
        V::U(byte as u64)
    } else {
        V::C(format!("{df:?} as {byte}"))
    }
}
pub fn peer(d: &system_slots::Device) -> V {
    V::R(vec![
        u(d.segment_group_number),
        u(d.bus_number),
        device_function(&d.device_and_function_number),
        u(d.data_bus_width),
    ])
}
pub fn group_item(g: &group_associations::GroupItem) -> V {
    V::R(vec![u(g.type_), u(g.handle)])
}
pub fn descriptor(d: &system_event_log::EventLogTypeDescriptor) -> V {
    use system_event_log::VariableDataFormatType as F;
    let f = match d.variable_data_format_type {
        F::Unused(v) => format!("Unused({v})"),
        F::OemAssigned(v) => format!("OemAssigned({v})"),
        x => {
            let t = format!("{x:?}");
            t[..t.find(['(', ' ', '{']).unwrap_or(t.len())].to_string()
        }
    };
    V::R(vec![c(&d.log_type), V::C(f)])
}

fn list<I: Iterator>(it: I, limit: usize, mut f: impl FnMut(&I::Item) -> V) -> V {
    V::L(it.take(limit + 1).map(|x| f(&x)).collect())
}

pub fn info_code(i: &InfoType) -> V {
    c(i)
}

/// The structure type a decoded variant stands for; None for a raw hand-over.
pub fn variant(s: &Structure) -> Option<u8> {
    Some(match s {
        Structure::Bios(_) => 0,
        Structure::System(_) => 1,
        Structure::BaseBoard(_) => 2,
        Structure::Enclosure(_) => 3,
        Structure::Processor(_) => 4,
        Structure::Cache(_) => 7,
        Structure::PortConnector(_) => 8,
        Structure::SystemSlots(_) => 9,
        Structure::OemStrings(_) => 11,
        Structure::SystemConfigurationOptions(_) => 12,
        Structure::BiosLanguage(_) => 13,
        Structure::GroupAssociations(_) => 14,
        Structure::SystemEventLog(_) => 15,
        Structure::PhysicalMemoryArray(_) => 16,
        Structure::MemoryDevice(_) => 17,
        Structure::MemoryError32(_) => 18,
        Structure::MemoryArrayMappedAddress(_) => 19,
        Structure::MemoryDeviceMappedAddress(_) => 20,
        Structure::BuiltInPointingDevice(_) => 21,
        Structure::PortableBattery(_) => 22,
        Structure::Other(_) => return None,
    })
}

pub fn handle(s: &Structure) -> u16 {
    match s {
        Structure::Bios(x) => x.handle,
        Structure::System(x) => x.handle,
        Structure::BaseBoard(x) => x.handle,
        Structure::Enclosure(x) => x.handle,
        Structure::Processor(x) => x.handle,
        Structure::Cache(x) => x.handle,
        Structure::PortConnector(x) => x.handle,
        Structure::SystemSlots(x) => x.handle,
        Structure::OemStrings(x) => x.handle,
        Structure::SystemConfigurationOptions(x) => x.handle,
        Structure::BiosLanguage(x) => x.handle,
        Structure::GroupAssociations(x) => x.handle,
        Structure::SystemEventLog(x) => x.handle,
        Structure::PhysicalMemoryArray(x) => x.handle,
        Structure::MemoryDevice(x) => x.handle,
        Structure::MemoryError32(x) => x.handle,
        Structure::MemoryArrayMappedAddress(x) => x.handle,
        Structure::MemoryDeviceMappedAddress(x) => x.handle,
        Structure::BuiltInPointingDevice(x) => x.handle,
        Structure::PortableBattery(x) => x.handle,
        Structure::Other(x) => x.handle,
    }
}

/// Named flags: the stored bits and, asked one by one, the flags the specification gives these names to.
macro_rules! named {
    ($f:ident, $t:ty, $($n:ident = $v:expr),*) => {
        fn $f(x: &$t) -> V {
            let bits = x.bits();
            $(if x.contains(<$t>::$n) != (bits & $v == $v) {
                return V::C(format!("{bits:#x}, but {} is {}", stringify!($n), x.contains(<$t>::$n)));
            })*
            u(bits)
        }
    };
}
named!(board_flags, baseboard::BaseBoardFlags, HOSTING = 1, REQUIRES_DAUGHTER = 2, IS_REMOVABLE = 4, IS_REPLACEABLE = 8, IS_HOT_SWAPPABLE = 16);
named!(status_flags, processor::ProcessorStatus, CPU_SOCKET_POPULATED = 0x40, CPU_ENABLED = 1, CPU_DISABLED_BY_USER = 2, CPU_DISABLED_BY_BIOS = 3, CPU_IDLE = 4, CPU_OTHER = 7);
named!(cpu_flags, processor::ProcessorCharacteristics, RESERVED = 1, UNKNOWN = 2, CAPABLE_64BIT = 4, MULTICORE = 8, HARDWARE_THREAD = 16, EXECUTE_PROTECTION = 32, ENHANCED_VIRTUALIZATION = 64, POWER_PERFORMANCE_CONTROL = 128, ARM64_SOC_ID = 512);
named!(legacy_flags, processor::VoltageLegacy, VOLTAGE_CAPABILITY_5V0 = 1, VOLTAGE_CAPABILITY_3V3 = 2, VOLTAGE_CAPABILITY_2V9 = 4);
named!(sram_flags, cache::CacheSramType, OTHER = 1, UNKNOWN = 2, NONBURST = 4, BURST = 8, PIPELINE_BURST = 16, SYNCHRONOUS = 32, ASYNCHRONOUS = 64);
named!(detail_flags, memory_device::Detail, OTHER = 2, UNKNOWN = 4, FAST_PAGED = 8, STATIC_COLUMN = 0x10, PSEUDO_STATIC = 0x20, RAMBUS = 0x40, SYNCHRONOUS = 0x80, CMOS = 0x100, EDO = 0x200, WINDOW_DRAM = 0x400, CACHE_DRAM = 0x800, NON_VOLATILE = 0x1000, REGISTERED = 0x2000, UNREGISTERED = 0x4000, LRDIMM = 0x8000);
named!(modes_flags, memory_device::OperatingModes, OTHER = 2, UNKNOWN = 4, VOLATILE = 8, BYTE_ACCESSIBLE_PERSISTENT = 16, BLOCK_ACCESSIBLE_PERSISTENT = 32);

fn cache_size(s: &cache::CacheSize) -> V {
    use cache::CacheSize::*;
    match s {
        Granularity1K(v) => V::R(vec![V::C("1K".into()), u(*v)]),
        Granularity64K(v) => V::R(vec![V::C("64K".into()), u(*v)]),
    }
}
fn cache_size_2(s: &cache::CacheSize2) -> V {
    use cache::CacheSize2::*;
    match s {
        Granularity1K(v) => V::R(vec![V::C("1K".into()), u(*v)]),
        Granularity64K(v) => V::R(vec![V::C("64K".into()), u(*v)]),
    }
}

/// `limit`: number of bytes behind the structure; no list can have more items.
pub fn fields(s: &Structure, bd: &mut Bounds, limit: usize) -> Fields {
    match s {
        Structure::Bios(x) => vec![
            ("handle", u(x.handle)),
            ("vendor", bd.t(x.vendor)),
            ("bios_version", bd.t(x.bios_version)),
            ("segment", u(x.bios_starting_address_segment)),
            ("release_date", bd.t(x.bios_release_date)),
            ("rom_size", u(x.rom_size.basic)),
            ("rom_size_extended", ou(x.rom_size.extended)),
            ("characteristics", u(x.bios_characteristics.value())),
            ("extension_1", ou(x.bios_characteristics_exttension_1.map(|v| v.value()))),
            ("extension_2", ou(x.bios_characteristics_exttension_2.map(|v| v.value()))),
            ("bios_revision", x.bios_revision.map_or(V::N, |r| V::R(vec![u(r.major), u(r.minor)]))),
            ("firmware_revision", x.firmware_revision.map_or(V::N, |r| V::R(vec![u(r.major), u(r.minor)]))),
            // a code that defers to an extended size which is absent or in a reserved unit stands for no number
            (
                "rom_bytes",
                match (x.rom_size.basic, x.rom_size.extended) {
                    (0xFF, None) | (0xFF, Some(0x8000..)) => V::N,
                    _ => V::U(u64::from(x.rom_size)),
                },
            ),
        ],
        Structure::System(x) => vec![
            ("handle", u(x.handle)),
            ("manufacturer", bd.t(x.manufacturer)),
            ("product", bd.t(x.product)),
            ("version", bd.t(x.version)),
            ("serial", bd.t(x.serial)),
            ("uuid", x.uuid.map_or(V::N, |v| V::Bytes(v.as_bytes().to_vec()))),
            ("wakeup", oc(&x.wakeup)),
            ("sku", bd.ot(x.sku)),
            ("family", bd.ot(x.family)),
        ],
        Structure::BaseBoard(x) => vec![
            ("handle", u(x.handle)),
            ("manufacturer", bd.t(x.manufacturer)),
            ("product", bd.t(x.product)),
            ("version", bd.t(x.version)),
            ("serial", bd.t(x.serial)),
            ("asset", bd.ot(x.asset)),
            ("feature_flags", x.feature_flags.as_ref().map_or(V::N, board_flags)),
            ("location", bd.ot(x.location_in_chassis)),
            ("chassis_handle", ou(x.chassis_handle)),
            ("board_type", oc(&x.board_type)),
        ],
        Structure::Enclosure(x) => vec![
            ("handle", u(x.handle)),
            ("manufacturer", bd.t(x.manufacturer)),
            ("lock", b(x.chassis_lock)),
            ("type", c(&x.enclosure_type)),
            ("version", bd.t(x.version)),
            ("serial", bd.t(x.serial_number)),
            ("asset", bd.t(x.asset_tag_number)),
            ("boot_up_state", oc(&x.boot_up_state)),
            ("power_supply_state", oc(&x.power_supply_state)),
            ("thermal_state", oc(&x.thermal_state)),
            ("security", oc(&x.security_status)),
            ("oem", ou(x.oem_defined)),
            ("height", ou(x.height)),
            ("cords", ou(x.power_cords_number)),
            (
                "elements",
                x.contained_elements
                    .as_ref()
                    .map_or(V::N, |e| V::R(vec![u(e.count()), list(e.clone(), limit, element)])),
            ),
            ("sku", bd.ot(x.sku_number)),
        ],
        Structure::Processor(x) => vec![
            ("handle", u(x.handle)),
            ("socket", bd.t(x.socket_designation)),
            ("type", c(&x.processor_type)),
            ("family", c(&x.processor_family)),
            ("manufacturer", bd.t(x.processor_manufacturer)),
            ("id", u(x.processor_id)),
            ("version", bd.t(x.processor_version)),
            ("voltage", {
                use processor::Voltage::*;
                match &x.voltage {
                    Legacy(l) => V::R(vec![V::C("Legacy".into()), legacy_flags(l)]),
                    Current(v) => V::R(vec![V::C("Current".into()), u(*v)]),
                    Undefined(v) => V::R(vec![V::C("Undefined".into()), u(*v)]),
                }
            }),
            ("external_clock", u(x.external_clock)),
            ("max_speed", u(x.max_speed)),
            ("current_speed", u(x.current_speed)),
            ("status", status_flags(&x.status)),
            ("upgrade", c(&x.processor_upgrade)),
            ("l1", ou(x.l1_cache_handle)),
            ("l2", ou(x.l2_cache_handle)),
            ("l3", ou(x.l3_cache_handle)),
            ("serial", bd.ot(x.serial_number)),
            ("asset", bd.ot(x.asset_tag)),
            ("part", bd.ot(x.part_number)),
            ("cores", ou(x.core_count)),
            ("enabled", ou(x.core_enabled)),
            ("threads", ou(x.thread_count)),
            ("characteristics", x.processor_characteristics.as_ref().map_or(V::N, cpu_flags)),
        ],
        Structure::Cache(x) => vec![
            ("handle", u(x.handle)),
            ("socket", bd.t(x.socket_designation)),
            (
                "configuration",
                V::R(
                    debug_fields(
                        &format!("{:?}", x.cache_configuration),
                        &["level", "socketed", "location", "enabled_at_boot_time", "operational_mode"],
                    )
                    .iter()
                    .map(|s| word(s))
                    .collect(),
                ),
            ),
            ("maximum", cache_size(&x.maximum_cache_size)),
            ("installed", cache_size(&x.installed_size)),
            ("supported_sram", sram_flags(&x.supported_sram_type)),
            ("current_sram", sram_flags(&x.current_sram_type)),
            ("speed", ou(x.cache_speed)),
            ("error_correction", oc(&x.error_correction_type)),
            ("system_type", oc(&x.system_cache_type)),
            ("associativity", oc(&x.associativity)),
            ("maximum_2", x.maximum_cache_size_2.as_ref().map_or(V::N, cache_size_2)),
            ("installed_2", x.installed_size_2.as_ref().map_or(V::N, cache_size_2)),
            (
                "bytes",
                V::R(
                    [x.maximum_cache_size.bytes(), x.installed_size.bytes()]
                        .into_iter()
                        .chain(x.maximum_cache_size_2.as_ref().map(|s| s.bytes()))
                        .chain(x.installed_size_2.as_ref().map(|s| s.bytes()))
                        .map(V::U)
                        .collect(),
                ),
            ),
        ],
        Structure::PortConnector(x) => vec![
            ("handle", u(x.handle)),
            ("internal", bd.t(x.internal_reference_designator)),
            ("internal_type", c(&x.internal_connector_type)),
            ("external", bd.t(x.external_reference_designator)),
            ("external_type", c(&x.external_connector_type)),
            ("port_type", c(&x.port_type)),
        ],
        Structure::SystemSlots(x) => vec![
            ("handle", u(x.handle)),
            ("designation", bd.t(x.slot_designation)),
            ("type", c(&x.slot_type)),
            ("width", c(&x.slot_data_bus_width)),
            ("usage", c(&x.current_usage)),
            ("length", c(&x.slot_length)),
            ("id", u(x.slot_id)),
            ("characteristics_1", u(x.slot_characteristics_1.value())),
            ("characteristics_2", ou(x.slot_characteristics_2.map(|v| v.value()))),
            ("segment", ou(x.segment_group_number)),
            ("bus", ou(x.bus_number)),
            ("device_function", x.device_and_function_number.as_ref().map_or(V::N, device_function)),
            ("data_bus_width", ou(x.data_bus_width)),
            ("peers", x.peer_devices.as_ref().map_or(V::N, |p| list(p.clone(), limit, peer))),
            ("information", ou(x.slot_information)),
            ("physical_width", oc(&x.slot_physical_width)),
            (
                "pitch",
                x.slot_pitch.as_ref().map_or(V::N, |p| match ints(&format!("{p:?}"))[..] {
                    [v] => V::U(v),
                    _ => c(p),
                }),
            ),
            (
                "peer_bytes",
                V::Bytes(x.peer_devices.iter().flat_map(|p| p.clone().take(limit + 1)).flat_map(|d| <[u8; 5]>::from(&d)).collect()),
            ),
        ],
        Structure::OemStrings(x) => vec![("handle", u(x.handle)), ("strings", list(x.strings, limit, |s| bd.t(s)))],
        Structure::SystemConfigurationOptions(x) => {
            vec![("handle", u(x.handle)), ("strings", list(x.strings, limit, |s| bd.t(s)))]
        }
        Structure::BiosLanguage(x) => vec![
            ("handle", u(x.handle)),
            ("languages", list(x.installable_languages.clone(), limit, |s| bd.t(s))),
            ("flags", ou(x.flags.map(|v| v.value()))),
            ("current", u(x.current_language)),
        ],
        Structure::GroupAssociations(x) => vec![
            ("handle", u(x.handle)),
            ("name", bd.t(x.group_name)),
            ("items", list(x.items, limit, group_item)),
        ],
        Structure::SystemEventLog(x) => vec![
            ("handle", u(x.handle)),
            ("area_length", u(x.log_area_length)),
            ("header_start", u(x.log_header_start_offset)),
            ("data_start", u(x.log_data_start_offset)),
            ("access", {
                use system_event_log::AccessMethod::*;
                let r = |n: &str, x: Vec<u64>| {
                    let mut v = vec![V::C(n.into())];
                    v.extend(x.into_iter().map(V::U));
                    V::R(v)
                };
                match x.access_method {
                    IndexedIoOne8bitIndexOne8bitData { index, data } => {
                        r("IndexedIoOne8bitIndexOne8bitData", vec![index as u64, data as u64])
                    }
                    IndexedIoTwo8bitIndexOne8bitData { index, data } => {
                        r("IndexedIoTwo8bitIndexOne8bitData", vec![index[0] as u64, index[1] as u64, data as u64])
                    }
                    IndexedIoOne16bitIndexOne8bitData { index, data } => {
                        r("IndexedIoOne16bitIndexOne8bitData", vec![index as u64, data as u64])
                    }
                    MemoryMappedPhysicaAddress { physical_address } => {
                        r("MemoryMappedPhysicaAddress", vec![physical_address as u64])
                    }
                    GeneralPurposeNonVolatileData { gpnv_handle } => {
                        r("GeneralPurposeNonVolatileData", vec![gpnv_handle as u64])
                    }
                    Available { method, address } => r("Available", vec![method as u64, address as u64]),
                    OemSpecific { method, address } => r("OemSpecific", vec![method as u64, address as u64]),
                }
            }),
            ("status", u(x.log_status.value())),
            ("change_token", u(x.log_change_token)),
            ("header_format", oc(&x.log_header_format)),
            (
                "descriptors",
                x.supported_event_log_type_descriptors.as_ref().map_or(V::N, |p| list(p.clone(), limit, descriptor)),
            ),
            (
                "descriptor_bytes",
                V::Bytes(
                    x.supported_event_log_type_descriptors
                        .iter()
                        .flat_map(|p| p.clone().take(limit + 1))
                        .flat_map(<[u8; 2]>::from)
                        .collect(),
                ),
            ),
            ("address", u(x.access_method.address())),
        ],
        Structure::PhysicalMemoryArray(x) => vec![
            ("handle", u(x.handle)),
            ("location", c(&x.location)),
            ("use", c(&x.r#use)),
            ("error_correction", c(&x.memory_error_correction)),
            ("capacity", ou(x.maximum_capacity)),
            ("error_handle", ou(x.memory_error_information_handle)),
            ("devices", u(x.number_of_memory_devices)),
            ("extended_capacity", ou(x.extended_maximum_capacity)),
        ],
        Structure::MemoryDevice(x) => vec![
            ("handle", u(x.handle)),
            ("array_handle", u(x.physical_memory_handle)),
            ("error_handle", ou(x.memory_error_handle)),
            ("total_width", ou(x.total_width)),
            ("data_width", ou(x.data_width)),
            ("size", ou(x.size)),
            ("form_factor", c(&x.form_factor)),
            ("device_set", ou(x.device_set)),
            ("device_locator", bd.t(x.device_locator)),
            ("bank_locator", bd.t(x.bank_locator)),
            ("type", c(&x.memory_type)),
            ("detail", detail_flags(&x.type_detail)),
            ("speed", ou(x.speed)),
            ("manufacturer", bd.t(x.manufacturer)),
            ("serial", bd.t(x.serial)),
            ("asset", bd.t(x.asset_tag)),
            ("part", bd.t(x.part_number)),
            ("attributes", u(x.attributes)),
            ("extended_size", u(x.extended_size)),
            ("configured_speed", ou(x.configured_memory_speed)),
            ("minimum_voltage", ou(x.minimum_voltage)),
            ("maximum_voltage", ou(x.maximum_voltage)),
            ("configured_voltage", ou(x.configured_voltage)),
            ("technology", oc(&x.memory_technology)),
            ("operating_modes", x.operating_mode_capability.as_ref().map_or(V::N, modes_flags)),
            ("firmware", bd.ot(x.firmware_version)),
            ("module_manufacturer", ou(x.module_manufacturer)),
            ("module_product", ou(x.module_product_id)),
            ("controller_manufacturer", ou(x.memory_subsystem_controller_manufacturer_id)),
            ("controller_product", ou(x.memory_subsystem_controller_product_id)),
            ("non_volatile", ou(x.non_volatile_size)),
            ("volatile", ou(x.volatile_size)),
            ("cache", ou(x.cache_size)),
            ("logical", ou(x.logical_size)),
            ("extended_speed", ou(x.extended_speed)),
            ("extended_configured_speed", ou(x.extended_configured_memory_speed)),
        ],
        Structure::MemoryError32(x) => vec![
            ("handle", u(x.handle)),
            ("type", c(&x.error_type)),
            ("granularity", c(&x.error_granularity)),
            ("operation", c(&x.error_operation)),
            ("syndrome", u(x.vendor_syndrome)),
            ("array_address", u(x.memory_array_error_address)),
            ("device_address", u(x.device_error_address)),
            ("resolution", u(x.error_resolution)),
        ],
        Structure::MemoryArrayMappedAddress(x) => vec![
            ("handle", u(x.handle)),
            ("start", u(x.starting_address)),
            ("end", u(x.ending_address)),
            ("owner", u(x.memory_array_handle)),
            ("partition_width", u(x.partition_width)),
            ("extended_start", ou(x.extended_starting_address)),
            ("extended_end", ou(x.extended_ending_address)),
        ],
        Structure::MemoryDeviceMappedAddress(x) => vec![
            ("handle", u(x.handle)),
            ("start", u(x.starting_address)),
            ("end", u(x.ending_address)),
            ("owner", u(x.memory_device_handle)),
            ("mapped_handle", u(x.memory_array_mapped_address_handle)),
            ("row", u(x.partition_row_position)),
            ("interleave", u(x.interleave_position)),
            ("depth", u(x.interleaved_data_depth)),
            ("extended_start", ou(x.extended_starting_address)),
            ("extended_end", ou(x.extended_ending_address)),
        ],
        Structure::BuiltInPointingDevice(x) => vec![
            ("handle", u(x.handle)),
            ("type", c(&x.type_)),
            ("interface", c(&x.interface)),
            ("buttons", u(x.number_of_buttons)),
        ],
        Structure::PortableBattery(x) => vec![
            ("handle", u(x.handle)),
            ("location", bd.t(x.location)),
            ("manufacturer", bd.t(x.manufacturer)),
            ("date", {
                use portable_battery::ManufactureDate::*;
                match &x.manufacture_date {
                    None => V::N,
                    Basic(s) => bd.t(s),
                    SmartBatteryDataSpecification { year, month, date } => V::R(vec![u(*year), u(*month), u(*date)]),
                }
            }),
            ("serial", {
                use portable_battery::SerialNumber::*;
                match &x.serial_number {
                    None => V::N,
                    Basic(s) => bd.t(s),
                    SmartBatteryDataSpecification(v) => V::R(vec![u(*v)]),
                }
            }),
            ("name", bd.t(x.device_name)),
            ("chemistry", {
                use portable_battery::DeviceChemistry::*;
                match &x.device_chemistry {
                    SmartBatteryDataSpecification(s) => V::R(vec![bd.t(s)]),
                    other => c(other),
                }
            }),
            ("capacity", {
                use portable_battery::DesignCapacity::*;
                match &x.design_capacity {
                    Unknown => V::N,
                    Data { value, multiplier } => V::R(vec![u(*value), u(*multiplier)]),
                }
            }),
            ("milliwatt_hours", V::U(u64::from(x.design_capacity))),
            ("voltage", u(x.design_voltage)),
            ("sbds_version", bd.t(x.sbds_version_number)),
            ("maximum_error", u(x.maximum_error_in_battery_data)),
            ("oem", ou(x.oem_specific)),
        ],
        Structure::Other(x) => {
            bd.bytes(x.data);
            vec![
                ("type", info_code(&x.info)),
                ("handle", u(x.handle)),
                ("length", u(x.length)),
                ("version", V::R(vec![u(x.version.major), u(x.version.minor)])),
                ("data", V::Bytes(if bd.escaped { vec![] } else { x.data.to_vec() })),
            ]
        }
    }
}

/// An error in canonical form; the type is compared by name.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum GotErr {
    BadSize(u32, u8),
    Unterminated(u32),
    Str(String, u16, u8),
    Len(String, u16, String, u8),
    Slice,
}
pub fn error(e: &MalformedStructureError) -> GotErr {
    use MalformedStructureError::*;
    match e {
        BadSize(o, n) => GotErr::BadSize(*o, *n),
        UnterminatedStrings(o) => GotErr::Unterminated(*o),
        InvalidStringIndex(t, h, i) => GotErr::Str(format!("{t:?}"), *h, *i),
        InvalidSlice(_) => GotErr::Slice,
        InvalidFormattedSectionLength(t, h, s, n) => GotErr::Len(format!("{t:?}"), *h, s.to_string(), *n),
    }
}
pub fn error_matches(got: &GotErr, exp: &[E]) -> bool {
    let ty = |t: &u8| crate::golden::name("InfoType", *t as u32);
    exp.iter().any(|e| match (e, got) {
        (E::BadSize(o, n), GotErr::BadSize(a, b)) => o == a && n == b,
        (E::Unterminated(o), GotErr::Unterminated(a)) => o == a,
        (E::Str(t, h, i), GotErr::Str(a, b, c)) => ty(t) == *a && h == b && i == c,
        (E::Len(t, h, _, n), GotErr::Len(a, b, _, c)) => ty(t) == *a && h == b && n == c,
        (E::Slice, GotErr::Slice) => true,
        _ => false,
    })
}
