"""What decides each property: driver, trace specification, models, scripts."""
import scripts as S
COMMON_ASSUMPTIONS = [
    'the drivers in harness/ report faithfully what the public operations returned',
    'TLC evaluates the specification correctly; bounds are those of the .cfg files',
]
CHECKS = {}


def reg(ids, **kw):
    for i in ids.split():
        d = dict(kw)
        f = d['scripts']
        d['scripts'] = (lambda f, i: lambda rng, behs, th: f(i, rng, behs, th))(f, i)
        CHECKS[i] = d


reg('C11', driver='queue_driver', trace='TraceEventQueue', mc=['MCEventQueue'], gen=[('MCEventQueue', 'GenEventQueue', 150, 60)], scripts=S.queue)
reg('C12', driver='walker_driver', trace='TraceWalkerRecord', mc=['MCWalkerRecord'], gen=[('MCWalkerRecord', 'GenWalkerRecord', 150, 30)], scripts=S.walker)
reg('C27 C28 C29 C30', driver='lattice_driver', trace='TraceLattice', mc=['MCLattice'], mc_thorough=[('MCLattice', 'MCLatticeDeep')], gen=[('MCLattice', 'GenLattice', 200, 12)], scripts=S.lattice)
reg('C26', driver='rate_driver', trace='TraceRateGraph', mc=['MCRateGraph'], gen=[('MCRateGraph', 'GenRateGraph', 150, 40)], scripts=S.rates)
reg('C13 C14 C15', driver='site_driver', trace='TraceSite', mc=['MCSiteModel'], gen=[('MCSiteModel', 'GenSiteModel', 120, 40)], scripts=S.site)
reg('C24', driver='sitestore_driver', trace='TraceSiteStore', mc=['MCSiteStore'], gen=[('MCSiteStore', 'GenSiteStore', 120, 50)], scripts=S.sitestore)
reg('C25', driver='clusterstore_driver', trace='TraceClusterStore', mc=['MCClusterStore'], gen=[('MCClusterStore', 'GenClusterStore', 120, 40)], scripts=S.clusterstore)
reg('C16 C17 C18 C19 C20 C21 C22 C23', driver='cluster_driver', trace='TraceCluster', mc=['MCClusterModel'], gen=[('MCClusterModel', 'GenClusterModel', 60, 60)], scripts=S.cluster)
reg('C31', driver='marcus_driver', trace='TraceMarcus', mc=['MCMarcus'], gen=[('MCMarcus', 'GenMarcus', 60, 30)], scripts=S.marcus)
reg('C09 C32', driver='graph_driver', trace='TraceGraph', mc=['MCBasin'], mc_thorough=[('MCBasin', 'MCBasinDeep')], gen=[('MCBasin', 'GenBasin', 60, 40)], scripts=S.graph, ugly=True)
_cg = dict(driver='cg_driver', trace='TraceCoarse', mc=['MCCoarseGrain'], mc_thorough=[('MCCoarseGrain', 'MCCoarseGrainDeep')], gen=[('MCCoarseGrain', 'GenCoarseGrain', 40, 80)], scripts=S.coarse, ugly=True)
reg('C01 C02 C03 C04 C06 C08 C10', **_cg)
reg('C05', **dict(_cg, opt='fast'))
reg('C07', driver='cg_driver', trace='TraceSystemSetup', mc=['MCSystemSetup'], gen=[('MCSystemSetup', 'GenSystemSetup', 120, 30)], scripts=S.setup_order, ugly=True)
reg('C33', driver='tof_driver', trace='TraceTimeOfFlight', mc=['MCTimeOfFlight'], mc_thorough=[('MCTimeOfFlight', 'MCTimeOfFlightDeep')], scripts=S.tof, ugly=True)
