#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
L = 'CoarseGrainSites/src/libmythical/'
I = 'CoarseGrainSites/include/mythical/'
CGS = [L + 'coarsegrainsystem.cpp', I + 'coarsegrainsystem.hpp']
CL = [L + 'topologyfeatures/cluster.cpp', L + 'topologyfeatures/cluster.hpp']
ST = [L + 'topologyfeatures/site.cpp', L + 'topologyfeatures/site.hpp']
TF = [L + 'topologyfeatures/topology_feature.cpp', L + 'topologyfeatures/topology_feature.hpp']
LA = [L + 'charge_transport/cuboid_lattice.cpp', I + 'charge_transport/cuboid_lattice.hpp']
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})


p('C01', 'At most one walker per site and none lost, through any simulation history',
  'In a simulation whose walkers start on distinct sites, two walkers never occupy the same site: a hop moves the walker to its potential site exactly when no other walker is there and otherwise leaves it where it is, and no other walker moves. A site whose walker left or was removed from the system can be entered again, and this stays true while clusters are formed, grow and absorb each other under the walkers.',
  ['histories', 'inputs', 'schedules'], 'every rate network, every order of hops, placements and removals, every history of cluster formation and merging',
  'unit tests run a few hundred hops of one walker on one or two fixed networks; the part needing the graph library is not even built',
  CGS + CL + TF, [('hop: isOccupied / vacate / occupy of the feature that owns the site', CGS[0]), ('occupancy per site inside a cluster', CL[0])],
  ['Walker position after CoarseGrainSystem::hop', 'CoarseGrainSystem::removeWalkerFromSystem'])
p('C02', 'A walker only ever moves along the rates it was given',
  'The potential site of a walker is always one of the sites its current site has a rate to or, when its current site belongs to a cluster, a site of that cluster while it keeps walking inside and a site some member has a rate to, outside the cluster, when it leaves. Dwell times are positive on every site that has rates, every hop off a site outside clusters, blocked or not, is followed by a newly drawn dwell time, and in a cluster one step never takes longer than the time increment of that cluster; the walker leaves the cluster with a step shorter than the increment and stays inside with a step equal to it.',
  ['histories', 'inputs'], 'every rate network (one-way rates, drains, several rates of very different size) and every history of hops and cluster changes',
  'tests look at the potential site of single calls on fixed three to five site networks',
  CGS + CL + ST, [('pickNewSiteId / getDwellTime of site and cluster', CL[0])], ['Walker::getPotentialSite', 'Walker::getDwellTime'])
p('C03', 'Clusters are disjoint, have at least two sites, only grow, and ids agree',
  'At any time each site belongs to at most one cluster, every cluster has at least two sites, and the cluster id reported for a site is the id of the cluster that lists it. Once two sites are in the same cluster they stay together; when clusters and sites are joined, the result keeps the smallest of the cluster ids involved and the other ids disappear.',
  ['histories', 'inputs'], 'every history of cluster creation, growth and merging on every network',
  'tests stop after one or two clusters were created and inspect a handful of sites',
  CGS + [L + 'site_container.cpp', L + 'cluster_container.cpp'], [('createCluster_ / mergeSitesAndClusters_', CGS[0])],
  ['CoarseGrainSystem::getClusters', 'CoarseGrainSystem::getClusterIdOfSite'])
p('C04', 'Coarse graining happens exactly when the documented conditions say so',
  'After more hops than the current threshold (counted over all walkers since the last attempt) one attempt is made from the site the last walker tried to enter; a failed attempt doubles the threshold, a successful one resets it to the configured minimum, and an infinite minimum switches coarse graining off; the minimum is 1000 hops and the performance ratio 1 unless set otherwise, and settings changed during a simulation hold from then on. The attempt turns the basin of that site into a cluster, or joins it to the clusters it touches, exactly when the time to leave the basin (one over the sum of the rates out of it) exceeds the performance ratio times twice the longest shortest travel time between two basin sites, and twice that travel time is below the time resolution; basins that are a single site, already are one whole cluster, or lie inside one, are left alone, and so is a basin whose clusters would join into one that no rate leaves.',
  ['histories', 'configurations', 'inputs'], 'every network, threshold, performance ratio and time resolution, at every hop of every history',
  'tests check for one threshold and one network that some cluster eventually appears',
  CGS + [L + 'basin_explorer.cpp'], [('hop / coarseGrain_ / sitesSatisfyEquilibriumCondition_', CGS[0])], ['CoarseGrainSystem::getClusters after each hop'])
p('C05', 'Coarse graining does not change the physics: occupation times and rates',
  'On a network with a unique equilibrium distribution, the long-run share of simulated time a walker spends in a cluster as a whole and on every other site equals the equilibrium share, with and without coarse graining. The mean time to reach an absorbing site through a coarse-grained region, and with several absorbing sites the share of walkers ending on each, equal those of the fine-grained network when the region is left slowly compared to the movement in it. Without coarse graining several walkers that exclude each other occupy the sites with the shares of the exclusion process in equilibrium.',
  ['inputs', 'histories'], 'every network in which clusters are left slowly, every seed and number of walkers that do not block each other',
  'tests compare two single runs with wide margins on two lattices, none of which is built here',
  CGS + CL, [('escape time constant, exit and internal hop distributions', CL[0])], ['sum of Walker::getDwellTime per site over a run'])
p('C06', 'Visit counts of the system count every arrival once and never decrease',
  'Placing a walker and every hop of a walker counts exactly one visit, of the site the walker is on afterwards, when that site is not in a cluster; a hop changes the visit count of no other unclustered site. A site keeps its count when it enters a cluster, and the counts of the sites of a cluster together grow with each arrival there by the hops it stands for (C22). The visit count reported for any site never decreases, also when the site enters a cluster, the cluster grows or is absorbed, and reporting it does not change it.',
  ['histories', 'inputs'], 'every history of placements, hops, removals and cluster changes, with queries at any point',
  'tests read the visit count at the end of one fixed run',
  CGS + CL + TF, [('getVisitFrequencyOfSite adds the counts of site and cluster', CGS[0])], ['CoarseGrainSystem::getVisitFrequencyOfSite'])
p('C07', 'Using the system out of order or with unknown sites is refused',
  'The time resolution must be positive and be set before it can be read or the sites can be initialised; walkers can only be initialised after the sites, and only when each was placed on a known site; the random seed can only be set before the sites are initialised; asking for the cluster or visits of an unknown site is an error. Each of these errors is reported by an exception and leaves the system usable, and calls made in order succeed, for any site id that is not the reserved unassigned one, also for sites only reached by rates.',
  ['histories', 'inputs'], 'every order of set-up calls and every set of site ids',
  'tests try a few of these errors once, in a fresh system',
  CGS, [('checks at the start of the public functions', CGS[0])], ['exceptions of CoarseGrainSystem'])
p('C08', 'The same seed and the same calls give the same trajectory',
  'Two systems given the same seed, the same rates and the same sequence of calls produce the same positions, potential sites, dwell times (up to rounding), clusters and visit counts at every step, including after clusters form and merge. Different seeds (below 2^32) give different dwell times, and the sites and clusters of one system draw from different sequences.',
  ['histories', 'inputs', 'schedules'], 'every seed, network and call sequence',
  'no test compares two runs step by step',
  CGS + TF, [('setRandomSeed / seeds handed to sites and clusters', CGS[0])], ['Walker state after each call in two systems'])
p('C09', 'The basin of a site is what fast rates reach from it, up to the size limit',
  'The basin found from a site holds the site itself and exactly the sites reachable from it over rates that are not slower than the fastest rate of the start site (one to itself included) or, when the start site is in a cluster, than the fastest rate off that cluster. Each site appears once, and when more sites than the exploration limit would be reached the basin is empty; exploring changes nothing.',
  ['inputs', 'configurations'], 'every network, start site and exploration limit',
  'tests look at three fixed networks; the file is not built here',
  [L + 'basin_explorer.cpp', L + 'basin_explorer.hpp'], [('findBasin / rateFastEnough_', L + 'basin_explorer.cpp')], ['BasinExplorer::findBasin'])
p('C10', 'Cluster resolution is at least two and fits the time resolution',
  'Every cluster of the system reports a resolution of at least two and a time increment that does not exceed the time resolution of the system at the time the cluster was made or last changed; the increment equals that time resolution unless the resolution is exactly two. This holds from the creation of the cluster on and again after it has grown or absorbed another one.',
  ['histories', 'configurations', 'inputs'], 'every network, time resolution and history of growth and merging',
  'tests read the resolution of one cluster after creation',
  CGS + CL, [('chooseResolution / setResolution', CGS[0])], ['CoarseGrainSystem::getResolutionOfClusters', 'CoarseGrainSystem::getTimeIncrementOfClusters'])
p('C11', 'The event queue hands out walkers in time order and loses none',
  'The queue holds exactly the entries added and not yet taken, taking always returns the front entry, and sorting permutes the entries into non-decreasing time order. Inserting in order into a sorted queue keeps it sorted and puts the entry behind those with equal time; the queue claims to be sorted only when it is, and reading outside it is an error.',
  ['histories', 'inputs'], 'every sequence of add, ordered add, take, sort and read, with equal, infinite and adjacent times',
  'one test adds four entries',
  [L + 'queue.cpp', I + 'queue.hpp'], [('Queue', L + 'queue.cpp')], ['Queue::at / size / isSorted / pop_current'])
p('C12', 'A walker remembers its own site, next site and dwell time',
  'A walker reports the site, next site and dwell time last recorded for it; asking for a site or next site that was never recorded is an error. The three records do not affect each other, walkers do not affect each other, and a copied walker is equal and from then on independent.',
  ['histories', 'inputs'], 'every interleaving of recordings on several walkers and every site id except the reserved one',
  'one test sets each field once',
  [L + 'walker.cpp', I + 'walker.hpp'], [('Walker', L + 'walker.cpp')], ['Walker getters'])
p('C13', 'Site rates, hop probabilities and time constant agree with the rates given',
  'After rates are set, added or replaced, a site reports exactly those neighbours with their current rates and the fastest of them, its hop probabilities are the rates divided by their sum, and its time constant is one over the sum. Rates are referenced, not copied: a rate changed by its owner is reported at once and enters the probabilities the next time a rate is added or replaced.',
  ['inputs', 'histories'], 'every set of positive rates over many orders of magnitude, neighbour ids of any value, every history of additions and replacements',
  'tests use one site with a few rates',
  ST, [('calculateProbabilityHopToNeighbors_ / calculateDwellTimeConstant_', ST[0])], ['Site getters'])
p('C14', 'Hops off a site follow its rates and dwell times are exponential',
  'The neighbour picked by a site is always one it has a rate to, each with probability rate over sum of rates, and dwell times are positive and exponentially distributed with the time constant of the site, independent of the neighbour picked. The same seed reproduces the same sequence and different seeds (below 2^32) give different ones.',
  ['inputs', 'histories'], 'every set of rates, seed and number of draws',
  'tests count one fixed distribution with wide margins',
  ST + TF, [('pickNewSiteId / getDwellTime', ST[0])], ['frequencies over many draws'])
p('C15', 'Site occupancy and visits follow occupy, vacate and removal exactly',
  'A site is occupied exactly when it was occupied more often than vacated; every occupation counts one visit and vacating or removing a walker counts none. Setting the occupation status or the visit count replaces it, variants of the calls that name the site or walker do the same, and sites do not affect each other.',
  ['histories'], 'every sequence of occupy, vacate, removal, status and count changes',
  'tests perform two occupations',
  TF + ST, [('occupyTopology_ / vacateTopology_', TF[0])], ['isOccupied', 'getVisitFrequency'])
p('C16', 'A cluster knows its sites, its surroundings and its fastest exit',
  'A cluster lists exactly the sites added to it, once each, all carrying its id, and after an update its neighbours are exactly the sites outside it that a member has a rate to, once each. The fastest rate off the cluster is the largest rate from a member to a non-member; all this stays true as sites are added in any order and grouping, and no two clusters share an id.',
  ['histories', 'inputs'], 'every order of adding sites one by one or together, every rate network',
  'tests build two fixed clusters',
  CL, [('addSite / addSites / getRatesToNeighborsOfCluster_', CL[0])], ['Cluster getters'])
p('C17', 'Cluster occupation and exit probabilities solve the master equation',
  'After an update with a converged method the reported probability of occupying each member is the stationary share of hops of the internal network, and the probability of leaving to each neighbour is proportional to the rate into it weighted by the share of time on the sites leading there. Both are normalised, also for one-way internal rates, and are computed afresh whenever the cluster has grown or absorbed another. Solving by a number of iterations per site performs that number times the size of the cluster (three per site unless set otherwise), and solving to a tolerance stops only when the last iteration changed no probability by more than that. The tolerance (0.01 by default) and the number of iterations are reported as they were set.',
  ['inputs', 'histories'], 'every internal network with a unique stationary state, every set of exits, every order of construction',
  'tests check a few symmetric clusters against numbers',
  CL, [('solveMasterEquation_ / iterate_ / calculateProbabilityHopToNeighbors_', CL[0])], ['getProbabilityOfOccupyingInternalSite', 'getProbabilityOfHoppingToNeighborOfCluster'])
p('C18', 'The escape time of a cluster is the mean time to leave it',
  'The time constant of an updated cluster equals the time spent on its sites divided by the escapes in that time, where sites without an exit count with their time, and the total time of a stay is exponentially distributed with it. The time increment is the time constant divided by the resolution, whenever either changes, and the time constant scales with the unit of time. A cluster that cannot be left has no time constant (the unassigned value).',
  ['inputs', 'configurations'], 'every internal network, set of exits (on any subset of the sites), resolution and unit of time',
  'tests check clusters in which every site has an exit, with one resolution',
  CL, [('calculateEscapeTimeConstant_ / setResolution', CL[0])], ['getTimeConstant', 'getTimeIncrement', 'getDwellTime'])
p('C19', 'A stay in a cluster ends with its short step, separately for each walker',
  'Every dwell time in a cluster is positive and at most the time increment: with a full increment the walker is next sent to a member, with a shorter one to a site outside, which ends its stay. Stays of different walkers do not influence each other, and a walker that left or was removed starts a new stay, like any walker never seen before.',
  ['histories', 'schedules', 'inputs'], 'every interleaving of steps, exits and removals of several walkers, every resolution and cluster',
  'tests follow one walker for a few steps',
  CL, [('getDwellTime / pickNewSiteId / removeWalker', CL[0])], ['Cluster::getDwellTime', 'Cluster::pickNewSiteId'])
p('C20', 'Sites picked by a cluster follow its time shares and exit probabilities',
  'While staying, a walker is sent to member i with probability equal to the share of time spent on i; when leaving, to each outside neighbour with the reported exit probability. No other site is ever picked, also after the cluster was updated again, has grown or has absorbed another cluster.',
  ['inputs', 'histories'], 'every cluster, seed, number of draws and history of updates',
  'tests count picks of one fresh cluster with wide margins',
  CL, [('pickInternalSite_ / pickClusterNeighbor_ and cumulative distributions', CL[0])], ['frequencies of Cluster::pickNewSiteId'])
p('C21', 'Cluster occupancy is exactly the occupancy of its sites',
  'A member is occupied exactly when a walker was put there and has not been taken away, and the cluster is occupied exactly when at least one member is. Sites that are occupied when they join, walkers removed while inside, and members taken over from another cluster are all accounted for.',
  ['histories'], 'every sequence of occupations, vacations, removals, additions and absorptions',
  'tests occupy one site of one cluster',
  CL + TF, [('occupyCluster_ / vacateCluster_ / isOccupiedCluster_', CL[0])], ['Cluster::isOccupied'])
p('C22', 'Cluster visits estimate the hops inside, whatever the polling and time unit',
  'Each recorded visit of a cluster credits every member with its stationary share of hops times the number of internal hops in the mean length of a recorded step, so that counts do not depend on the unit of time or on when and how often they are read. Counts never decrease; counts set explicitly, and those present when the cluster grows or is absorbed, are kept.',
  ['histories', 'inputs', 'configurations'], 'every interleaving of visits, reads, updates and absorptions, every resolution and unit of time',
  'tests compare the counts of one cluster with rough ranges',
  CL, [('getVisitFrequency / setVisitFrequency', CL[0])], ['Cluster::getVisitFrequency'])
p('C23', 'Absorbing a cluster moves everything and leaves the other empty',
  'After one cluster takes over the sites of another it holds the union, every moved site carries its id, and occupation, visits, exit probabilities and escape time are those of a cluster of all these sites. The other cluster has no sites, no neighbours and is not occupied, and can be reused.',
  ['histories', 'inputs'], 'every pair of clusters in any state, repeatedly',
  'tests merge one pair and look at the sites only',
  CL, [('migrateSitesFrom', CL[0])], ['Cluster getters after migrateSitesFrom'])
p('C24', 'The site container is a faithful map from id to site',
  'A site is found under its id exactly when it was added, with its rates, cluster id, occupation and visits; adding an id twice, and asking anything about an unknown id, is an error that changes nothing. The rates of all sites, the ids, neighbours, time constants and fastest rates reported are those of the sites stored, and the smallest cluster id of a group ignores sites without one.',
  ['histories', 'inputs'], 'every sequence of additions, changes and queries',
  'tests use two or three sites',
  [L + 'site_container.cpp', L + 'site_container.hpp'], [('Site_Container', L + 'site_container.cpp')], ['Site_Container'])
p('C25', 'The cluster container is a faithful map from id to cluster',
  'A cluster is found under its id exactly when it was added and not erased; adding an id twice, and asking anything about an unknown id, is an error that changes nothing, while erasing an unknown id does nothing. Sites, neighbours, occupation, time constants, resolutions, increments, fastest rates and dwell times reported are those of the clusters stored.',
  ['histories', 'inputs'], 'every sequence of additions, erasures, changes and queries',
  'tests use one or two clusters',
  [L + 'cluster_container.cpp', L + 'cluster_container.hpp'], [('Cluster_Container', L + 'cluster_container.cpp')], ['Cluster_Container'])
p('C26', 'The rate container is a faithful directed graph of rates',
  'A rate is found from one site to another exactly when it was added, as the very object that was added; adding a pair twice and asking for an absent rate are errors. Counts and sets of incoming and outgoing rates, sources (no incoming) and sinks (no outgoing) are those of the rates added, and no query changes any answer.',
  ['histories', 'inputs'], 'every set of directed rates, every order of additions and queries',
  'tests use one small set and do not repeat queries',
  [L + 'rate_container.cpp', L + 'rate_container.hpp'], [('Rate_Container', L + 'rate_container.cpp')], ['Rate_Container'])
p('C27', 'Lattice positions and indices correspond one to one',
  'Index and position are inverse to each other and each index from zero to the number of sites is used by exactly one position. In a periodic direction any integer coordinate is folded into the lattice, in a fixed direction a coordinate outside is an error, as are indices outside the lattice, positions that are not three numbers and negative sizes.',
  ['inputs', 'configurations'], 'every lattice size, boundary combination, coordinate and index',
  'tests try a few coordinates of small lattices',
  LA, [('getIndex / getPosition / getXPeriodic_', LA[0])], ['Cuboid::getIndex', 'Cuboid::getPosition'])
p('C28', 'Lattice neighbours are exactly the sites within the cutoff, each once',
  'The neighbours of a site are exactly the other sites whose smallest distance to it, over periodic images in the periodic directions, does not exceed the cutoff, each listed once with that distance. The lists by index, by position and for the whole lattice agree, and being neighbours is mutual; indices and positions outside the lattice are errors.',
  ['inputs', 'configurations'], 'every lattice size, boundary combination, spacing, site and cutoff, including cutoffs beyond the lattice',
  'tests check corner sites of two lattices with short cutoffs',
  LA, [('getNeighbors / getNeighborDistances', LA[0])], ['Cuboid::getNeighbors', 'Cuboid::getNeighborDistances'])
p('C29', 'The smallest lattice distance is the minimum over periodic images',
  'The distance between two sites is the lattice spacing times the Euclidean distance of their positions, where in each periodic direction the shortest way around is taken. It is symmetric, zero only from a site to itself and the same after shifting both sites along a periodic direction; indices outside the lattice are errors.',
  ['inputs', 'configurations'], 'every pair of sites of every lattice and boundary combination',
  'tests compute a dozen distances',
  LA, [('getSmallestDistance', LA[0])], ['Cuboid::getSmallestDistance'])
p('C30', 'Random sites of a plane lie in that plane and are uniform',
  'A random site drawn in a plane of the lattice has the requested coordinate, every site of that plane is drawn with equal probability, and successive draws are independent. A plane index outside the lattice is an error, whatever the boundaries.',
  ['inputs', 'configurations'], 'every lattice size, plane, plane index and number of draws',
  'tests draw a few sites in a cube',
  LA, [('getRandomSite', LA[0])], ['Cuboid::getRandomSite'])
p('C31', 'Marcus rates obey the documented formula and detailed balance',
  'The rate is 2 pi over h-bar times the squared coupling over the square root of 4 pi k_B T, times the exponential of minus (lambda + E_j - E_i) squared over 4 lambda k_B T. So it is quadratic in the coupling whatever its sign, depends on the energies by their difference only, and forward and backward rates have the ratio exp(-(E_j - E_i)/(k_B T)).',
  ['inputs'], 'every reorganisation energy, temperature, pair of energies and coupling',
  'no test of the stable suite computes a Marcus rate',
  [L + 'charge_transport/marcus.cpp', I + 'charge_transport/marcus.hpp', I + 'constants.hpp'], [('Marcus::getRate', L + 'charge_transport/marcus.cpp')], ['Marcus::getRate'])
p('C32', 'Graphs handed to the graph library mirror the rates of the sites',
  'For each site asked for, there is exactly one directed edge per rate off it, from the site to the neighbour, weighted with the current rate (or with one over it in the time version), and none for others. The unique, shared, single-site and multi-site versions agree and the nodes are the sites asked for, once each.',
  ['inputs', 'histories'], 'every container content and every list of sites',
  'tests look at one container of two sites; the file is not built here',
  [L + 'graph_library_adapter.hpp', L + 'graph_library_adapter.cpp'], [('convertSites...', L + 'graph_library_adapter.hpp')], ['edges and nodes returned'])

p('C33', 'A time-of-flight simulation: charges cross the lattice in time order, none lost',
  'Charges simulated as in the time-of-flight example (Marcus rates between the sites of a lattice within a cutoff, with a field along x and site energies; charges put on random sites of the first plane; the next charge to hop taken from the queue and put back with its new time; charges removed at the last plane) hop in the order of their times, each only to a lattice neighbour within the cutoff (or, from a cluster, to a site of the cluster or a neighbour of one), stay on different sites, and are at any time either in flight or collected. Without coarse graining a charge enters each neighbour with probability proportional to the Marcus rate, its mean dwell time is one over the sum of the rates, and the mean time of flight is that of the biased random walk, also when charges follow one another through the same system.',
  ['histories', 'inputs', 'configurations'], 'every lattice, boundary, cutoff, field, set of site energies, number of charges and seed',
  'the example is not built and no test puts the parts together',
  LA + [L + 'charge_transport/marcus.cpp', L + 'queue.cpp', L + 'coarsegrainsystem.cpp', 'examples/ToF/ToF_example.cpp'],
  [('the loop of the example: pop_current, hop, sortedAdd, removeWalkerFromSystem', 'examples/ToF/ToF_example.cpp'), ('rates from distances and energies', L + 'charge_transport/marcus.cpp')],
  ['positions, next sites and times of the charges', 'Queue', 'mean time of flight'])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
import registry
NOTE = ('TLC explores the specification exhaustively within the constants of its .cfg and validates every recorded execution of the real code '
        'step by step against the same specification; executions are sampled (behaviours generated by TLC plus seeded random scripts), so the code '
        'is decided on the executed histories only. Trusted: TLC, the driver, the compiler')
checks, na = [], []
for x in P:
    c = registry.CHECKS.get(x['id'])
    if not c:
        na.append({'property': x['id'], 'reason': 'check not built yet'})
        continue
    checks.append({'property': x['id'], 'quick_cmd': 'python3 bin/check.py %s' % x['id'], 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % x['id'],
                   'technique': 'TLA+ specification model-checked with TLC; TLC trace validation of executions of the real code (%s)' % c['trace'],
                   'level': 'model_checking', 'level_note': NOTE + (', the stand-in for the graph library UGLY (shim/).' if c.get('ugly') else '.') + c.get('note', '')})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ with TLC. No hooks in /repo are needed: the drivers use the public interface of the classes.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks')
