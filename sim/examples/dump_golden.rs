//! Prints the code tables of the library, once, for review against the SMBIOS specification.
//! The reviewed output is committed as src/golden.txt; checks never regenerate it.
use dmidecode::structures::*;
use std::fmt::Debug;
fn dump<T: Debug>(name: &str, max: u32, f: impl Fn(u32) -> T) {
    let pat = |c: u32| {
        let t = format!("{:?}", f(c));
        let suffix = format!("({c})");
        match t.strip_suffix(&suffix) {
            Some(p) => format!("{p}(#)"),
            None => t,
        }
    };
    let mut c = 0;
    while c <= max {
        let p = pat(c);
        let mut e = c;
        while e < max && pat(e + 1) == p {
            e += 1;
        }
        if e > c {
            println!("{name} {c:#x}-{e:#x} {p}");
        } else {
            println!("{name} {c:#x} {p}");
        }
        c = e + 1;
    }
}
fn main() {
    macro_rules! d { ($n:literal, $t:ty) => { dump($n, 255, |c| <$t>::from(c as u8)); } }
    d!("InfoType", dmidecode::InfoType);
    d!("WakeupType", system::WakeupType);
    d!("BoardType", baseboard::BoardType);
    d!("EnclosureType", enclosure::EnclosureType);
    d!("State", enclosure::State);
    d!("SecurityStatus", enclosure::SecurityStatus);
    d!("ProcessorType", processor::ProcessorType);
    d!("ProcessorUpgrade", processor::ProcessorUpgrade);
    dump("ProcessorFamily", 0xFFFF, |c| processor::ProcessorFamily::from(c as u16));
    d!("CacheErrorCorrectionType", cache::CacheErrorCorrectionType);
    d!("SystemCacheType", cache::SystemCacheType);
    d!("CacheAssociativity", cache::CacheAssociativity);
    d!("ConnectorType", port_connector::ConnectorType);
    d!("PortType", port_connector::PortType);
    d!("SlotType", system_slots::SlotType);
    d!("SlotWidth", system_slots::SlotWidth);
    d!("CurrentUsage", system_slots::CurrentUsage);
    d!("SlotLength", system_slots::SlotLength);
    d!("LogHeaderFormat", system_event_log::LogHeaderFormat);
    d!("EventLogType", system_event_log::EventLogType);
    d!("VariableDataFormatType", system_event_log::VariableDataFormatType);
    d!("MemoryArrayLocation", physical_memory_array::MemoryArrayLocation);
    d!("MemoryArrayUse", physical_memory_array::MemoryArrayUse);
    d!("MemoryArrayErrorCorrectionTypes", physical_memory_array::MemoryArrayErrorCorrectionTypes);
    d!("FormFactor", memory_device::FormFactor);
    d!("MemoryTechnology", memory_device::MemoryTechnology);
    d!("MemoryType", memory_device::Type);
    d!("ErrorType", memory_error_32::ErrorType);
    d!("ErrorGranularity", memory_error_32::ErrorGranularity);
    d!("ErrorOperation", memory_error_32::ErrorOperation);
    d!("PointingType", built_in_pointing_device::Type);
    d!("PointingInterface", built_in_pointing_device::Interface);
}
