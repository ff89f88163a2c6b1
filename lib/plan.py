"""Which parts of the specification and which suites decide a property. Sizes are (quick, thorough)."""

BASE_LEVEL = "model_checking"
RD = {"Gen_Rdata": ("Rdata.tla", "Gen_Rdata")}
COMP = {"Gen_Comp": ("Compressor.tla", "Gen_Comp")}
COMPT = {"Gen_Comp": ("Compressor.tla", "Gen_CompT")}
NAME = {"Gen_Name": ("NameReader.tla", "Gen_Name")}
NAMET = {"Gen_Name": ("NameReader.tla", "Gen_NameT")}
BITM = {"Gen_Bitmap": ("Bitmap.tla", "Gen_Bitmap")}
PARM = {"Gen_Params": ("Params.tla", "Gen_Params")}
HEAD = {"Gen_Header": ("Header.tla", "Gen_Header")}
BUILD = {"Gen_Builder": ("Builder.tla", "Gen_Builder")}
CUR = {"Gen_Cursor1": ("MCCursor.tla", "Gen_Cursor1"), "Gen_Cursor2": ("MCCursor.tla", "Gen_Cursor2")}
FQ = {"Gen_Fqdn": ("Fqdn.tla", "Gen_Fqdn")}
RRS = {"Gen_Rrset": ("Rrset.tla", "Gen_Rrset")}

READER = [("Reader.tla", "MC_Reader")]
READERT = [("Reader.tla", "MC_ReaderT"), ("Reader.tla", "MC_ReaderT2")]

PLAN = {
    "C01": {
        "mc": READER + [("NameReader.tla", "MC_Name"), ("NameReader.tla", "MC_NameLong")], "mcT": READERT + [("NameReader.tla", "MC_NameT")],
        "gen": dict(NAME, **RD),
        "suites": [("dec_adv", 1500, 20000), ("dec_mut", 900, 20000), ("names_ex", 600, 4000), ("names_rand", 150, 3000), ("rd_types", 2, 40), ("dec_long", 4, 24),
                   ("dec_frame", 1, 10), ("dec_prefix", 200, 4000), ("hdr_w", 8, 256)],
    },
    "C02": {
        "mc": READER + [("Rdata.tla", "MC_Rdata")], "mcT": READERT, "gen": RD,
        "suites": [("enc_small", 440, 440), ("enc_types", 14, 150), ("enc_rand", 450, 8000), ("enc_wide", 13, 130), ("enc_many", 2, 8)],
    },
    "C03": {
        "mc": READER + [("Compressor.tla", "MC_Comp"), ("Compressor.tla", "MC_Comp2")], "mcT": READERT + [("Compressor.tla", "MC_CompT")],
        "bad": [("Compressor.tla", "Bad_Comp_wrap"), ("Compressor.tla", "Bad_Comp_text"), ("Compressor.tla", "Bad_Comp_fold"), ("Compressor.tla", "Bad_Comp_loose")],
        "gen": COMP, "genT": COMPT,
        "suites": [("enc_comp", 729, 7000), ("enc_names", 350, 6000), ("enc_plainnames", 100, 2000), ("enc_big", 13, 52), ("enc_rand", 250, 5000), ("enc_types", 4, 60)],
    },
    "C04": {
        "mc": [("Builder.tla", "MC_Builder")], "bad": [("Builder.tla", "Bad_Builder")], "gen": BUILD,
        "suites": [("hist_tour", 450, 5000), ("hist_rand", 350, 8000), ("enc_many", 4, 16)],
    },
    "C05": {
        "mc": [("Header.tla", "MC_Header")], "gen": HEAD,
        "suites": [("hdr_t", 736, 736), ("hdr_w", 256, 256), ("hdr_rand", 400, 10000), ("hist_rand", 60, 1000), ("enc_rand", 60, 2000), ("dec_valid", 60, 2000)],
    },
    "C06": {
        "mc": [("NameReader.tla", "MC_Name"), ("NameReader.tla", "MC_NameLong")], "mcT": [("NameReader.tla", "MC_NameT")], "gen": NAME, "genT": NAMET,
        "suites": [("names_ex", 3125, 20000), ("names_rand", 500, 10000), ("rd_names", 250, 6000), ("dec_adv", 130, 130), ("dec_valid", 150, 4000), ("dec_long", 4, 16)],
    },
    "C07": {
        "mc": READER + [("Rdata.tla", "MC_Rdata")], "mcT": READERT, "gen": dict(RD, **BITM),
        "suites": [("enc_small", 440, 440), ("enc_types", 12, 150), ("enc_rand", 150, 5000), ("rd_types", 2, 30), ("enc_wide", 26, 260), ("rrset_rand", 74, 2000), ("fq_rand", 60, 1000),
                   ("enc_names", 100, 2000), ("enc_bitmap", 60, 800)],
    },
    "C08": {
        "mc": READER + [("Rdata.tla", "MC_Rdata")], "mcT": READERT, "gen": dict(RD, **COMP),
        "suites": [("enc_small", 440, 440), ("enc_types", 14, 160), ("enc_plainnames", 200, 4000), ("enc_wide", 26, 260), ("rd_small", 150, 1320), ("enc_comp", 150, 729)],
    },
    "C09": {
        "mc": READER + [("Rdata.tla", "MC_Rdata")], "mcT": READERT, "gen": RD,
        "suites": [("rd_small", 400, 1320), ("rd_types", 10, 150), ("rd_codes", 40, 256), ("rd_octets", 5, 60), ("rd_lengths", 24, 400), ("rd_texts", 3, 40), ("dec_types", 4, 60), ("rd_names", 120, 3000), ("dec_mut", 400, 8000)],
    },
    "C10": {
        "mc": READER + [("Rdata.tla", "MC_Rdata")], "mcT": READERT, "gen": RD,
        "suites": [("dec_frame", 7, 100), ("dec_tail", 1, 20), ("rd_small", 250, 1320), ("rd_types", 3, 60), ("dec_mut", 200, 5000)],
    },
    "C11": {
        "mc": READER, "mcT": READERT, "gen": RD,
        "suites": [("dec_counts", 1200, 20000), ("dec_prefix", 1500, 20000), ("enc_rand", 250, 4000), ("enc_types", 4, 30), ("enc_small", 200, 440), ("dec_adv", 60, 200)],
    },
    "C12": {
        "mc": [("MCCursor.tla", "MC_Cursor1"), ("MCCursor.tla", "MC_Cursor2")], "gen": CUR,
        "suites": [("cursor_tour", 1000, 5000), ("cursor_rand", 900, 20000)],
    },
    "C13": {
        "mc": [("CodeTables.tla", "MC_Codes")],
        "suites": [("codes", 1, 1), ("codes_q", 320, 400), ("rd_codes", 40, 256), ("hdr_w", 16, 256), ("rd_types", 2, 20), ("sign_cases", 0, 1), ("enc_types", 3, 30)],
    },
    "C14": {
        "mc": [("Bitmap.tla", "MC_Bitmap")], "mcT": [("Bitmap.tla", "MC_BitmapT")], "gen": BITM,
        "suites": [("rd_bitmap", 512, 4000), ("enc_bitmap", 512, 6000)],
    },
    "C15": {
        "mc": READER, "mcT": READERT,
        "suites": [("enc_mdns", 250, 5000), ("dec_mdns", 500, 10000), ("codes_q", 60, 300), ("enc_rand", 80, 2000)],
    },
    "C16": {
        "mc": [("Rrset.tla", "MC_Rrset"), ("Canon.tla", "MC_Canon")], "gen": RRS,
        "suites": [("rrset_ex", 258, 258), ("rrset_rand", 300, 6000), ("rrset_sort", 200, 4000)],
    },
    "C17": {
        "mc": [("Sign.tla", "MC_Sign"), ("Rrset.tla", "MC_Rrset"), ("Canon.tla", "MC_Canon")],
        "bad": [("Sign.tla", "Bad_Sign_nottl"), ("Sign.tla", "Bad_Sign_nosigner"), ("Sign.tla", "Bad_Sign_nolen"), ("Sign.tla", "Bad_Sign_dedupe"), ("Sign.tla", "Bad_Sign_unsorted")],
        "suites": [("sign_cases", 8, 80)],
    },
    "C18": {
        "mc": [("KeyTags.tla", "MC_KeyTag")],
        "suites": [("ds_cases", 600, 12000), ("dhcid_cases", 300, 6000), ("sign_cases", 1, 8)],
    },
    "C19": {
        "mc": [("Fqdn.tla", "MC_Fqdn")], "gen": FQ,
        "suites": [("fq_ex", 200, 2000), ("fq_rand", 500, 10000), ("fcmp_ex", 2500, 17689), ("fcmp_rand", 800, 15000), ("names_rand", 60, 600)],
    },
    "C20": {
        "mc": [("Builder.tla", "MC_Builder")], "gen": BUILD,
        "suites": [("hist_tour", 450, 5000), ("hist_rand", 400, 8000)],
    },
    "C21": {
        "mc": [("Params.tla", "MC_Params")], "mcT": [("Params.tla", "MC_ParamsT")], "gen": PARM,
        "suites": [("params_cases", 350, 5000), ("params_rand", 400, 8000)],
    },
    "C22": {
        "mc": [("Entry.tla", "MC_Entry")], "bad": [("Entry.tla", "Bad_Entry")], "gen": {"Gen_Entry": ("Entry.tla", "Gen_Entry")},
        "suites": [("edit_tour", 120, 700), ("edit_rand", 300, 6000), ("edit_pairs", 60, 1000), ("edit_sweep", 1, 20)],
    },
    "C23": {
        "mc": [("Views.tla", "MC_Views")], "mcT": [("Views.tla", "MC_ViewsT")], "gen": RD,
        "suites": [("view_all", 440, 1320), ("view_rand", 700, 12000)],
    },
    "C24": {
        "mc": [("Equal.tla", "MC_Equal")], "bad": [("Equal.tla", "Bad_Equal_" + d) for d in ("fold", "text", "ttl", "bit", "order")],
        "gen": {"Gen_Equal": ("Equal.tla", "Gen_Equal")},
        "suites": [("eq_gen", 3000, 17000), ("eq_data", 900, 20000), ("eq_rand", 600, 10000)],
    },
    "C25": {
        "mc": [("Calls.tla", "MC_Calls")], "mcT": [("Calls.tla", "MC_CallsT")], "bad": [("Calls.tla", "Bad_Calls_" + d) for d in ("shared", "dirty", "memo", "touch")],
        "gen": {"Gen_Calls": ("Calls.tla", "Gen_Calls")},
        "suites": [("calls_mix", 500, 7056), ("obs_rand", 400, 8000)],
    },
}
LEVEL = {k: BASE_LEVEL for k in PLAN}
for _k in ("C07", "C08", "C09", "C21"):
    PLAN[_k]["suites"].append(("known", 1, 1))

SCALE = {
    "C01": [("rd_octets", 2, 20), ("rd_small", 80, 600), ("names_deep", 6, 60), ("dec_scale", 1, 6), ("dec_count", 4, 24)],
    "C02": [("enc_spread", 2, 10), ("enc_scale", 1, 100), ("enc_lists", 34, 34), ("enc_labels", 60, 210), ("enc_crowd", 2, 14), ("enc_crowd2", 1, 4), ("enc_64k", 1, 4), ("enc_count", 4, 16)],
    "C03": [("enc_crowd", 7, 28), ("enc_crowd2", 4, 8), ("enc_spread", 8, 40), ("enc_labels", 60, 210), ("enc_64k", 2, 4), ("enc_lists", 12, 34), ("enc_scale", 1, 3), ("enc_count", 4, 16)],
    "C04": [("enc_count", 8, 32)],
    "C06": [("names_deep", 30, 60)],
    "C07": [("enc_scale", 1, 100), ("enc_lists", 34, 34), ("enc_labels", 50, 210), ("rrset_big", 6, 27)],
    "C08": [("enc_scale", 1, 100), ("enc_lists", 34, 34), ("enc_labels", 50, 210)],
    "C09": [("enc_scale", 1, 100), ("enc_lists", 34, 34), ("dec_scale", 2, 8)],
    "C10": [("dec_scale", 3, 20)],
    "C11": [("enc_lists", 6, 34), ("enc_crowd", 1, 7), ("dec_count", 16, 48), ("enc_count", 4, 16)],
    "C12": [("cursor_big", 7, 42)],
    "C16": [("rrset_big", 27, 27)],
    "C19": [("fq_scale", 220, 1000)],
    "C21": [("params_scale", 3, 100)],
}
# thousands of variations tried by the harness (hunt_crowd: messages)
HUNT = {
    "C01": [("hunt_msg", 160, 4000), ("hunt_rd", 600, 20000)],
    "C02": [("hunt_pkt", 80, 2000)],
    "C03": [("hunt_pkt", 60, 2000), ("hunt_crowd", 400, 4000)],
    "C07": [("hunt_pkt", 40, 1000), ("hunt_rd", 400, 10000)],
    "C09": [("hunt_rd", 1000, 20000)],
    "C10": [("hunt_msg", 60, 2000)],
    "C11": [("hunt_pkt", 80, 2000), ("hunt_msg", 60, 1000)],
}
NEAR = {
    "C04": [("hist_over", 24, 600)],
    "C20": [("hist_over", 24, 600)],
    "C02": [("enc_near", 120, 3000)],
    "C03": [("enc_near", 120, 3000)],
    "C15": [("enc_mdns_far", 30, 400)],
    "C16": [("rrset_prefix", 60, 1500)],
    "C17": [("sign_big", 4, 36)],
}
for _k, _v in NEAR.items():
    SCALE.setdefault(_k, []).extend(_v)
for _k, _v in HUNT.items():
    SCALE.setdefault(_k, []).extend(_v)
for _k, _v in SCALE.items():
    PLAN[_k]["suites"] += _v
