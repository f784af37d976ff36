"""What decides each property: models to check, trace specification, driver shards."""

NETGEN = [dict(module="MC_SPN", cfg="MC_SPN_quick.cfg", tier="quick", emit=True, workers=2),
          dict(module="MC_SPN", cfg="MC_SPN_thorough.cfg", tier="thorough", emit=True, workers=6, heap="8g")]



def gen(module, **kw):
    """a model whose behaviours are replayed: small constants in the quick tier, larger ones in the thorough tier"""
    return [dict(module=module, cfg=module + "_quick.cfg", tier="quick", emit=True, workers=2, **kw),
            dict(module=module, cfg=module + "_thorough.cfg", tier="thorough", emit=True, workers=6, heap="8g", **kw)]


CHECKS = {
    "C01": dict(trace="TraceSPN", mc=NETGEN),
    "C02": dict(trace="TraceSPN", mc=NETGEN),
    "C03": dict(trace="TraceSPN", mc=NETGEN),
    "C04": dict(trace="TraceSPN", mc=NETGEN),
    "C05": dict(trace="TraceSPN", mc=NETGEN),
    "C07": dict(trace="TraceSPN", mc=NETGEN),
    "C06": dict(trace="TraceStorer", race=True, mc=gen("MC_Storer")),
    "C11": dict(trace="TraceColl", mc=gen("MC_Coll")),
    "C12": dict(trace="TraceQueue1", race=True, mc=gen("MC_Queue1") + [
        dict(module="SlotAlg", cfg="SlotAlg_quick.cfg"), dict(module="SlotAlg", cfg="SlotAlg_one.cfg"),
        dict(module="SlotAlg", cfg="SlotAlg_live.cfg"),
        dict(module="SlotAlg", cfg="SlotAlg_thorough.cfg", tier="thorough")]),
    "C08": dict(trace="TraceLearn", mc=NETGEN),
    "C09": dict(trace="TraceLearn", mc=NETGEN),
    "C10": dict(trace="TraceLearn", mc=gen("MC_Norm")),
    "C13": dict(trace="TraceScore", race=True, mc=gen("MC_Score")),
    "C19": dict(trace="TraceData", mc=gen("MC_Data")),
    "C15": dict(trace="TraceGens", race=True, mc=gen("MC_Gens")),
    "C16": dict(trace="TraceRegions", mc=gen("Poon") + [
        dict(module="Dennis", cfg="Dennis_quick.cfg"), dict(module="Dennis", cfg="Dennis_thorough.cfg", tier="thorough")]),
    "C17": dict(trace="TraceCluster", mc=gen("DBScan")),
    "C18": dict(trace="TraceIndep", mc=gen("MC_Indep")),
    "C22": dict(trace="TraceLeaf", mc=gen("MC_Leaf")),
    "C25": dict(trace="TraceStats", mc=gen("MC_Stats")),
    "C20": dict(trace="TraceFiles", mc=gen("MC_Files")),
    "C21": dict(trace="TraceImages", race=True, mc=gen("Convert")),
    "C23": dict(trace="TraceNpy", mc=gen("MC_Npy")),
    "C24": dict(trace="TraceDraw", mc=gen("MC_Draw")),
    "C27": dict(trace="TraceGraph", mc=gen("MC_Graph")),
    "C28": dict(trace="TraceDownload", mc=gen("MC_Download")),
    "C29": dict(trace="TraceApp", race=True, mc=gen("MC_App")),
    "C30": dict(trace="TraceCli", cli=True, shards=(4, 8), mc=gen("MC_Cli")),
    "C26": dict(trace="TraceSys", race=True, mc=gen("MC_Sys")),
    "C14": dict(trace="TraceParams", race=True, mc=gen("MC_Params")),
}
