"""texts for MANIFEST.json"""
DEFAULT_TECH = "interprocedural gated value-flow analysis over MIR; outputs, guards and effects compared with the specification"
DEFAULT_NOTE = ("Every path of the entry points is analysed at once with symbolic inputs and each obligation is discharged by "
                "normalisation and interval/linear reasoning over the value-flow terms; an obligation that is not discharged is "
                "reported. Trusts the MIR of the nightly compiler and the models of std, cosmwasm-std, cw-storage-plus, serde "
                "and cw20-base; lists are analysed for the lengths in DESIGN.md, everything else is unbounded.")
TECH = {
    "C50": "interprocedural value-flow analysis (dependence of every result on its inputs) and a query over the MIR of every reachable function",
    "C55": "query over the compiler's record of the entry points' exports, and value-flow analysis of which messages request replies",
    "C52": "query over the MIR of the derived encoders and decoders; the JSON form reconstructed from it is compared with the specification",
    "C53": "query over the MIR of the derived encoders and decoders, and the storage cells found by value-flow analysis",
}
NOTE = {}
NA = {}
