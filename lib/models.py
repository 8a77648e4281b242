"""Exhaustive models of the specification that a check runs besides the ones its generator
asks for: property -> [(module, quick configuration, thorough configuration)]."""
EXTRA = {
    "C01": [("MC_Link", "MC_Link.cfg", "MC_LinkDeep.cfg")],
    "C02": [("MC_Num", "MC_Num.cfg", "MC_Num.cfg")],
    "C03": [("MC_Link", "MC_Link.cfg", "MC_LinkDeep.cfg")],
    "C04": [("MC_Mux", "MC_Mux.cfg", "MC_MuxDeep.cfg")],
    "C05": [("MC_Mux", "MC_Mux.cfg", "MC_MuxDeep.cfg")],
    "C07": [("MC_RS", "MC_RS.cfg", "MC_RSDeep.cfg")],
    "C09": [("MC_Ofdm", "MC_Ofdm.cfg", "MC_OfdmDeep.cfg")],
    "C10": [("MC_Ofdm", "MC_Ofdm.cfg", "MC_OfdmDeep.cfg")],
    "C13": [("MC_Fm", "MC_Fm.cfg", "MC_FmDeep.cfg")],
    "C14": [("MC_Chirp", "MC_Chirp.cfg", "MC_ChirpDeep.cfg")],
    "C15": [("MC_Adaptor", "MC_Adaptor.cfg", "MC_AdaptorDeep.cfg")],
    "C16": [("MC_Adaptor", "MC_Adaptor.cfg", "MC_AdaptorDeep.cfg")],
    "C18": [("MC_Band", "MC_Band.cfg", "MC_BandDeep.cfg")],
    "C27": [("MC_Butter", "MC_Butter.cfg", "MC_ButterDeep.cfg")],
}
