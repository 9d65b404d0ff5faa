"""Registry of contracts (used at call sites) and of proofs (bodies)."""
import importlib
MODS=['s_codec','s_file','s_fmt','s_bulk','s_bucket','s_bkio']
def _m(): return [importlib.import_module(m) for m in MODS]
def contracts():
    out=[]
    for m in _m():
        out+=[c for c in getattr(m,'CONTRACTS',[])]
    return out
def proofs():
    out=[]
    for m in _m(): out+=list(getattr(m,'PROOFS',[]))
    return out
