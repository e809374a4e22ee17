"""Shared set-up: load the real reference tables from the XML sources (never depending on file times)."""

def globalsModule():
    from BibleOrgSys import BibleOrgSysGlobals as G
    G.verbosityLevel = 0
    return G

def bookCodes():
    G = globalsModule()
    from BibleOrgSys.Reference.BibleBooksCodes import BibleBooksCodes
    if G.loadedBibleBooksCodes is None:
        G.loadedBibleBooksCodes = BibleBooksCodes().loadData(G.BOS_DATAFILES_FOLDERPATH.joinpath('BibleBooksCodes.xml'))
    return G.loadedBibleBooksCodes

def preload():
    """BibleOrgSysGlobals.preloadCommonData() with the tables forced to come from the XML files."""
    G = globalsModule()
    if getattr(G, '_sxPreloaded', False): return G
    bookCodes()
    from BibleOrgSys.Reference.USFM3Markers import USFM3Markers
    m = USFM3Markers()
    try: m.loadData(G.BOS_DATAFILES_FOLDERPATH.joinpath('USFM3Markers.xml'))
    except TypeError: pass
    G.preloadCommonData()
    G._sxPreloaded = True
    return G
