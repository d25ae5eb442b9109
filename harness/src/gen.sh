#!/bin/bash
# regenerates mods.rs from the extern "C" entries of the property files
cd "$(dirname "$0")" && { for f in t00 p[0-9][0-9].rs; do f=${f%.rs}; [ -f $f.rs ] || continue; echo "#[cfg(feature = \"$f\")] #[path = \"$f.rs\"] pub mod $f;"; echo -n "#[cfg(feature = \"$f\")] pub const ENTRIES: &[(&str, extern \"C\" fn())] = &["; grep -o 'extern "C" fn h_[a-z0-9_]*' $f.rs | sed "s/extern \"C\" fn \(.*\)/(\"\1\", $f::\1), /" | tr -d '\n'; echo "];"; done; } > mods.rs
