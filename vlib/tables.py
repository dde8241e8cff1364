"""Value tables of [MS-SHLLINK] v5.0 (and of the libfwsi notes the README refers to), written
independently of the implementation."""

LINK_FLAGS = [
    "HasTargetIDList", "HasLinkInfo", "HasName", "HasRelativePath", "HasWorkingDir",
    "HasArguments", "HasIconLocation", "IsUnicode", "ForceNoLinkInfo", "HasExpString",
    "RunInSeparateProcess", "Reserved0", "HasDarwinID", "RunAsUser", "HasExpIcon",
    "NoPidlAlias", "Reserved1", "RunWithShimLayer", "ForceNoLinkTrack",
    "EnableTargetMetadata", "DisableLinkPathTracking", "DisableKnownFolderTracking",
    "DisableKnownFolderAlias", "AllowLinkToLink", "UnaliasOnSave", "PreferEnvironmentPath",
    "KeepLocalIDListForUNCTarget",
]  # fmt: skip
LF = {name: 1 << i for i, name in enumerate(LINK_FLAGS)}

FILE_FLAGS = [
    "FILE_ATTRIBUTE_READONLY", "FILE_ATTRIBUTE_HIDDEN", "FILE_ATTRIBUTE_SYSTEM",
    "Reserved, not used by the LNK format", "FILE_ATTRIBUTE_DIRECTORY",
    "FILE_ATTRIBUTE_ARCHIVE", "FILE_ATTRIBUTE_DEVICE", "FILE_ATTRIBUTE_NORMAL",
    "FILE_ATTRIBUTE_TEMPORARY", "FILE_ATTRIBUTE_SPARSE_FILE", "FILE_ATTRIBUTE_REPARSE_POINT",
    "FILE_ATTRIBUTE_COMPRESSED", "FILE_ATTRIBUTE_OFFLINE",
    "FILE_ATTRIBUTE_NOT_CONTENT_INDEXED", "FILE_ATTRIBUTE_ENCRYPTED",
    "FILE_ATTRIBUTE_INTEGRITY_STREAM", "FILE_ATTRIBUTE_VIRTUAL",
    "FILE_ATTRIBUTE_NO_SCRUB_DATA",
]  # fmt: skip


def flag_names(value, names):
    return [name for i, name in enumerate(names) if value >> i & 1]


SHOW = {1: "SW_SHOWNORMAL", 3: "SW_SHOWMAXIMIZED", 7: "SW_SHOWMINNOACTIVE"}

HOTKEY_HIGH = {0: "UNSET", 1: "SHIFT", 2: "CONTROL", 4: "ALT"}
HOTKEY_LOW = {0: "UNSET", 0x90: "NUM_LOCK", 0x91: "SCROLL_LOCK"}
HOTKEY_LOW.update({ord(ch): ch for ch in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"})
HOTKEY_LOW.update({0x6F + n: "F%d" % n for n in range(1, 25)})


def hotkey(low, high):
    raw = "%02x%02x" % (low, high)
    if low in HOTKEY_LOW and high in HOTKEY_HIGH:
        return "%s - %s {0x%s}" % (HOTKEY_HIGH[high], HOTKEY_LOW[low], raw)
    return raw


DRIVE_TYPES = [
    "DRIVE_UNKNOWN", "DRIVE_NO_ROOT_DIR", "DRIVE_REMOVABLE", "DRIVE_FIXED", "DRIVE_REMOTE",
    "DRIVE_CDROM", "DRIVE_RAMDISK",
]  # fmt: skip

PROVIDERS = {
    0x001A0000: "WNNC_NET_AVID", 0x001B0000: "WNNC_NET_DOCUSPACE",
    0x001C0000: "WNNC_NET_MANGOSOFT", 0x001D0000: "WNNC_NET_SERNET",
    0x001E0000: "WNNC_NET_RIVERFRONT1", 0x001F0000: "WNNC_NET_RIVERFRONT2",
    0x00200000: "WNNC_NET_DECORB", 0x00210000: "WNNC_NET_PROTSTOR",
    0x00220000: "WNNC_NET_FJ_REDIR", 0x00230000: "WNNC_NET_DISTINCT",
    0x00240000: "WNNC_NET_TWINS", 0x00250000: "WNNC_NET_RDR2SAMPLE",
    0x00260000: "WNNC_NET_CSC", 0x00270000: "WNNC_NET_3IN1",
    0x00290000: "WNNC_NET_EXTENDNET", 0x002A0000: "WNNC_NET_STAC",
    0x002B0000: "WNNC_NET_FOXBAT", 0x002C0000: "WNNC_NET_YAHOO",
    0x002D0000: "WNNC_NET_EXIFS", 0x002E0000: "WNNC_NET_DAV",
    0x002F0000: "WNNC_NET_KNOWARE", 0x00300000: "WNNC_NET_OBJECT_DIRE",
    0x00310000: "WNNC_NET_MASFAX", 0x00320000: "WNNC_NET_HOB_NFS",
    0x00330000: "WNNC_NET_SHIVA", 0x00340000: "WNNC_NET_IBMAL",
    0x00350000: "WNNC_NET_LOCK", 0x00360000: "WNNC_NET_TERMSRV",
    0x00370000: "WNNC_NET_SRT", 0x00380000: "WNNC_NET_QUINCY",
    0x00390000: "WNNC_NET_OPENAFS", 0x003A0000: "WNNC_NET_AVID1",
    0x003B0000: "WNNC_NET_DFS", 0x003C0000: "WNNC_NET_KWNP",
    0x003D0000: "WNNC_NET_ZENWORKS", 0x003E0000: "WNNC_NET_DRIVEONWEB",
    0x003F0000: "WNNC_NET_VMWARE", 0x00400000: "WNNC_NET_RSFX",
    0x00410000: "WNNC_NET_MFILES", 0x00420000: "WNNC_NET_MS_NFS",
    0x00430000: "WNNC_NET_GOOGLE",
}  # fmt: skip

SORT_INDEX = {
    0x00: "Internet Explorer", 0x42: "Libraries", 0x44: "Users", 0x4C: "Public Folder",
    0x48: "My Documents", 0x50: "My Computer", 0x54: "UsersLibraries",
    0x58: "My Networs Places/Network", 0x60: "Recycle Bin", 0x68: "Internet Explorer",
    0x78: "Recycle Bin", 0x80: "My Games",
}  # fmt: skip

CATEGORIES = [
    "All Control Panel Items", "Appearance and Personalization", "Hardware and Sound",
    "Network and Internet", "Sounds, Speech, and Audio Devices", "System and Security",
    "Clock, Language, and Region", "Ease of Access", "Programs", "User Accounts",
    "Security Center", "Mobile PC",
]  # fmt: skip

# Low nibble of the class type indicator of file entries and network locations.
# Bits 0-2 of the type of an entry: directory, file, both (a share); bit 2: Unicode.
ENTRY_FLAGS = {
    0: "Unknown", 1: "Is directory", 2: "Is file", 3: "Is share", 4: "Has Unicode strings",
    5: "Is Unicode directory", 6: "Is Unicode file", 7: "Is Unicode share",
}  # fmt: skip
ENTRY_FLAGS.update({8 + n: name for n, name in list(ENTRY_FLAGS.items())})

ITEM_CLASS = {
    0x00: "Control panel CPL file", 0x01: "Control panel category", 0x1E: "Root Folder",
    0x1F: "Root Folder", 0x52: "Compressed folder", 0x61: "Internet", 0x70: "Control panel",
    0x71: "Control panel", 0x72: "Printers", 0x73: "Common places folder",
    0x74: "Users files folder",
}  # fmt: skip


def item_class(indicator):
    kind = indicator & 0x70
    if kind == 0x20:
        return "Volume Item"
    if kind == 0x30:
        return "File entry"
    if kind == 0x40:
        return "Network location"
    return ITEM_CLASS.get(indicator, "Unknown")


VT = {
    "VT_EMPTY": 0x00, "VT_NULL": 0x01, "VT_I2": 0x02, "VT_I4": 0x03, "VT_R4": 0x04,
    "VT_R8": 0x05, "VT_CY": 0x06, "VT_DATE": 0x07, "VT_BSTR": 0x08, "VT_ERROR": 0x0A,
    "VT_BOOL": 0x0B, "VT_DECIMAL": 0x0E, "VT_I1": 0x10, "VT_UI1": 0x11, "VT_UI2": 0x12,
    "VT_UI4": 0x13, "VT_I8": 0x14, "VT_UI8": 0x15, "VT_INT": 0x16, "VT_UINT": 0x17,
    "VT_LPSTR": 0x1E, "VT_LPWSTR": 0x1F, "VT_FILETIME": 0x40, "VT_BLOB": 0x41,
    "VT_STREAM": 0x42, "VT_STORAGE": 0x43, "VT_STREAMED_Object": 0x44,
    "VT_STORED_Object": 0x45, "VT_BLOB_Object": 0x46, "VT_CF": 0x47, "VT_CLSID": 0x48,
    "VT_VERSIONED_STREAM": 0x49,
    "VT_VECTOR_I2": 0x1002, "VT_VECTOR_I4": 0x1003, "VT_VECTOR_R4": 0x1004,
    "VT_VECTOR_R8": 0x1005, "VT_VECTOR_CY": 0x1006, "VT_VECTOR_DATE": 0x1007,
    "VT_VECTOR_BSTR": 0x1008, "VT_VECTOR_ERROR": 0x100A, "VT_VECTOR_BOOL": 0x100B,
    "VT_VECTOR_VARIANT": 0x100C, "VT_VECTOR_I1": 0x1010, "VT_VECTOR_UI1": 0x1011,
    "VT_VECTOR_UI2": 0x1012, "VT_VECTOR_UI4": 0x1013, "VT_VECTOR_I8": 0x1014,
    "VT_VECTOR_UI8": 0x1015, "VT_VECTOR_LPSTR": 0x101E, "VT_VECTOR_LPWSTR": 0x101F,
    "VT_VECTOR_FILETIME": 0x1040, "VT_VECTOR_CF": 0x1047, "VT_VECTOR_CLSID": 0x1048,
    "VT_ARRAY_I2": 0x2002, "VT_ARRAY_I4": 0x2003, "VT_ARRAY_R4": 0x2004,
    "VT_ARRAY_R8": 0x2005, "VT_ARRAY_CY": 0x2006, "VT_ARRAY_DATE": 0x2007,
    "VT_ARRAY_BSTR": 0x2008, "VT_ARRAY_ERROR": 0x200A, "VT_ARRAY_BOOL": 0x200B,
    "VT_ARRAY_VARIANT": 0x200C, "VT_ARRAY_DECIMAL": 0x200E, "VT_ARRAY_I1": 0x2010,
    "VT_ARRAY_UI1": 0x2011, "VT_ARRAY_UI2": 0x2012, "VT_ARRAY_UI4": 0x2013,
    "VT_ARRAY_INT": 0x2016, "VT_ARRAY_UINT": 0x2017,
}  # fmt: skip
