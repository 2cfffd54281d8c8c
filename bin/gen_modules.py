#!/usr/bin/env python3
"""writes harness/src/modules.rs for the c??.rs files present"""
import os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms=sorted(f[:-3] for f in os.listdir(V+"/harness/src") if re.fullmatch(r"c\d\d\.rs",f))
o="".join(f'#[cfg(feature = "{m}")] mod {m};\n' for m in ms)
o+="fn dispatch(prop: &str, seed: u64, rep: &mut util::Rep) -> bool {\n    match prop {\n"
o+="".join(f'        #[cfg(feature = "{m}")] "{m.upper()}" => {m}::run(seed, rep),\n' for m in ms)
o+="        _ => return false,\n    }\n    true\n}\n"
open(V+"/harness/src/modules.rs","w").write(o)
