"""cargo metadata's types, extracted from src/cm.rs into `mod cm`"""
from vlib import Ty
CM = "src/cm.rs"
D = "#[derive(Clone, Copy)]"
TYPES = [Ty(CM, t, mod="cm", attrs=a) for t, a in [
    ("PackageId", ""), ("Metadata", ""), ("WorkspaceDefaultMembers", ""), ("Resolve", ""), ("Node", ""), ("NodeDep", ""), ("DepKindInfo", ""), ("DependencyKind", D),
    ("Dependency", ""), ("Package", ""), ("Source", ""), ("Target", ""), ("TargetKind", D), ("CrateType", D), ("Edition", D)]]
MODS = {"cm": "pub use super::PathX as PathBuf;"}
