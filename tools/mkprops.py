#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the statements live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

LAY = ['src/gearimpl/FixedPadAngleDiskLayout.cc', 'src/gearimpl/FixedPadSizeDiskLayout.cc',
       'src/gearimpl/RectangularPadRowLayout.cc', 'src/gearimpl/VersatileDiskRowLayout.cc']
LAYH = ['include/gear/gearimpl/FixedDiskLayoutBase.h', 'include/gear/gearimpl/FixedPadAngleDiskLayout.h',
        'include/gear/gearimpl/FixedPadSizeDiskLayout.h', 'include/gear/gearimpl/RectangularPadRowLayout.h',
        'include/gear/gearimpl/VersatileDiskRowLayout.h']

prop('C01', 'Pad numbering is a bijection and rejects pads that do not exist',
 'For every pad layout (fixed pad angle, fixed pad size, rectangular and versatile), combining a row number and a pad number that exist in the layout gives a pad index that splits back into exactly that row and that pad, so two different pads never share an index. A row or pad number that the layout does not have (negative, or too large) is rejected with an exception instead of yielding an index. A combined module-and-pad identifier returns the module and pad it was made from, and its equality and ordering are those of the (module, pad) pair.',
 ['inputs', 'configurations'],
 'all layouts with at most 32768 rows of at most 65536 pads, all row and pad numbers (any int), all identifiers',
 'testgear walks the pads of a handful of small fixed layouts and only checks the exit code; packing two numbers in one word can collide or change sign for numbers no test uses, and no test passes numbers that are out of range.',
 LAY + LAYH + ['src/gearimpl/GlobalPadIndex.cc', 'include/gear/gearimpl/GlobalPadIndex.h'],
 [('getPadIndex / getRowNumber / getPadNumber of the four layouts', 'src/gearimpl/*Layout.cc, include/gear/gearimpl/*Layout*.h'),
  ('GlobalPadIndex', 'src/gearimpl/GlobalPadIndex.cc')],
 ['getPadIndex', 'getRowNumber', 'getPadNumber'])

prop('C02', 'Neighbour navigation steps one pad and wraps only on a full circle',
 'For every pad of every layout, the left and right neighbour are pads of the same row whose pad number differs by exactly one: left is one more and right one less in the polar layouts (pad numbers grow with phi), left is one less and right one more in the rectangular layout (pad numbers grow with x). At the end of a row a polar layout that covers the full circle (phi extent within 1e-6 of two pi) wraps to the other end of the same row, and every other layout throws the library exception instead of returning a pad. Going left and then right (or right and then left), whenever both succeed, returns to the starting pad.',
 ['inputs', 'configurations'], 'all layouts within the numbering limits of C01, all pads, both directions',
 'tests visit the neighbours of a few pads in one or two hard-coded layouts; the edges of rows with other pad counts, nearly-full circles and large row numbers are never visited.',
 LAY + LAYH, [('getLeftNeighbour / getRightNeighbour', 'src/gearimpl/*Layout.cc')], ['getLeftNeighbour', 'getRightNeighbour'])

prop('C03', 'Row listings enumerate exactly the pads of the layout',
 'For every layout and every existing row, the list of pads in that row contains the index of pad 0, 1, 2, ... up to the number of pads of that row, in that order, and nothing else, no matter how often or in which order rows are listed or whether the layout is an original or a copy. For a row number the layout does not have (including negative ones) the list is empty. The total number of pads reported by the layout is the sum of the list lengths over all its rows.',
 ['inputs', 'configurations', 'histories'], 'all layouts, all row numbers, all orders of listing',
 'the lists are built lazily and cached behind the const interface, so the result depends on call history; tests list rows of single originals and never compare with the row description.',
 LAY + LAYH, [('getPadsInRow and its lazily filled cache', 'src/gearimpl/*Layout.cc'), ('getNPads, pad count bookkeeping', 'src/gearimpl/*Layout.cc')],
 ['getPadsInRow', 'getNPads', 'getNRows'], [('_padIndices', 'per row cache of pad indices, null until first listed', 'include/gear/gearimpl/*Layout.h')])

prop('C04', 'Polar layouts: a point in a pad cell finds that pad',
 'In every polar layout (fixed pad angle, fixed pad size, versatile with the rows stacked from an inner radius and offsets and pads inside one turn) a point strictly inside the cell of a pad (cell: the pitch in phi around the pad centre, the row height in r around the row centre) has that pad as its nearest pad, has distance zero to that pad, and is reported as inside that pad where pads fill their cells (in the fixed-pad-size layout the pad itself is the pad width and height about that centre); angles are understood modulo full turns when looking up the nearest pad. The centre of every pad lies in its own cell, cells of one row are adjacent in order of pad number (centres one pitch apart) and rows are adjacent in order of row number. The nearest pad of any other point with radius of at least 1e-6 is still an existing pad of the layout.',
 ['inputs', 'configurations'], 'all polar layouts within the stated shape, all points with radius of at least 1e-6, all pads',
 'a continuum of points and layout parameters; tests query a handful of points of two layouts and print the results.',
 ['src/gearimpl/FixedPadAngleDiskLayout.cc', 'src/gearimpl/FixedPadSizeDiskLayout.cc', 'src/gearimpl/VersatileDiskRowLayout.cc', 'src/gearimpl/FixedDiskLayoutBase.cc'],
 [('getNearestPad, isInsidePad, getDistanceToPad, getPadCenter', 'src/gearimpl/*DiskLayout*.cc'), ('VersatileDiskRowLayout::Row', 'src/gearimpl/VersatileDiskRowLayout.cc')],
 ['getNearestPad', 'isInsidePad', 'getDistanceToPad', 'getPadCenter'])

prop('C05', 'Rectangular layout: nearest pad, inside test and distance agree with boxes',
 'In every rectangular pad row layout, a pad is the axis-parallel box of its pad width and pad height around its pad centre: a point is reported inside a pad exactly when it lies in that box, and the distance from a point to a pad is the Euclidean distance to that box (zero inside). A point in the box of a pad has that pad (or, exactly on a shared border, an adjacent pad touching the point) as its nearest pad and is reported as inside some pad; a point outside the plane extent is inside no pad. For any point the nearest pad is an existing pad of the layout, and looking it up always terminates.',
 ['inputs', 'configurations'], 'all rectangular layouts built from any non-empty sequence of rows with positive heights, all points, all pads',
 'continuum of points and row stackings (different heights, offsets, gaps); the interpolation search over rows depends on the heights, tests use one layout.',
 ['src/gearimpl/RectangularPadRowLayout.cc'],
 [('getNearestPad interpolation search', 'src/gearimpl/RectangularPadRowLayout.cc'), ('isInsidePad, distanceToBox, getDistanceToPad', 'src/gearimpl/RectangularPadRowLayout.cc')],
 ['getNearestPad', 'isInsidePad', 'getDistanceToPad'])

prop('C06', 'Building a layout stacks rows without gaps and keeps its counts and extent',
 'Rows added to a rectangular or versatile layout are stacked outwards from the lower edge without gaps in the order they were added, keep the given pad count, pad size, height and offsets, and the layout reports the matching number of rows and pads and a plane extent that reaches exactly from the lower edge to the top of the last row; repeating the rows of a rectangular layout n times appends n-1 more copies of the row pattern, and only the first such call has an effect. A fixed-pad-angle or fixed-pad-size disk divides its radial range into equal rows, each with equal pads: of the given number filling the phi range (fixed pad angle), or as many pads of the given width as fit into the phi range at the row centre (fixed pad size). A row that cannot be placed (pads do not fit, row lower than its pads, invalid numbers in a versatile row) is rejected with the library exception and leaves the layout exactly as it was.',
 ['inputs', 'histories', 'configurations'], 'all sequences of row additions and repetitions, all constructor arguments in the documented ranges',
 'histories of row additions with arbitrary values; tests build one or two layouts and never check that a rejected row has no effect.',
 LAY, [('addRow / repeatRows', 'src/gearimpl/RectangularPadRowLayout.cc, src/gearimpl/VersatileDiskRowLayout.cc'), ('constructors', 'src/gearimpl/Fixed*DiskLayout.cc')],
 ['rows', 'getRowHeight', 'getPadCenter', 'getPlaneExtent', 'getNRows', 'getNPads'])

prop('C07', 'Copies of layouts, modules and TPC parameters are complete and independent',
 'A copy made by copy construction, assignment or clone of a pad layout, a TPC module or a TPC description answers every query exactly as the original did at the time of copying, including the named user parameters. The copy shares no mutable or owned state with the original: changing or destroying either one afterwards does not affect the other, and assigning an object to itself leaves it unchanged.',
 ['inputs', 'histories'], 'all objects, all orders of copy / modify / destroy',
 'ownership of lazily allocated caches and module lists is only visible for particular histories; tests copy an object or two and never destroy or modify the original afterwards.',
 LAY + ['src/gearimpl/TPCModuleImpl.cc', 'src/gearimpl/TPCParametersImpl.cc', 'src/gearimpl/GearParametersImpl.cc'],
 [('copy_and_assign / operator= / clone', 'src/gearimpl/*.cc')], ['clone', 'operator=', 'copy constructors'])

prop('C08', 'TPC module coordinates: local and global frames are inverse rigid motions',
 'For every TPC module, converting a point of the read-out plane from local to global coordinates is a rotation by the module angle followed by a translation by the module offset (and then, for a module whose z position was set to zero or below, the mirror image of the read-out plane, global x to -x), whatever mixture of polar and Cartesian coordinates is used for the layout and the TPC. Converting from global to local coordinates is the exact inverse in both orders (angles modulo full turns), and both preserve distances between points. Changing the offset, the angle or the z position of a module takes effect on all later conversions.',
 ['inputs', 'configurations', 'histories'], 'all module offsets, angles, z positions, coordinate system combinations, and points; all orders of the setters',
 'continuum of offsets/angles/points times eight coordinate-system configurations and shortcut paths; tests try a few points with loose comparisons.',
 ['src/gearimpl/TPCModuleImpl.cc', 'include/gear/gearimpl/TPCModuleImpl.h'],
 [('globalToLocal, localToGlobal', 'src/gearimpl/TPCModuleImpl.cc'), ('checkLocalIsGlobal shortcut', 'src/gearimpl/TPCModuleImpl.cc')],
 ['globalToLocal', 'localToGlobal'], [('_localIsGlobal', 'shortcut: local and global frames coincide', 'include/gear/gearimpl/TPCModuleImpl.h')])

TPCM = ['src/gearimpl/TPCModuleImpl.cc', 'include/gear/gearimpl/TPCModuleImpl.h']
prop('C09', 'A TPC module answers pad queries through its layout and its coordinates',
 'Every pad query of a TPC module (pad centre, nearest pad, inside a given pad, inside any pad, distance to a pad, row and pad numbers, neighbours, sizes and counts) gives the answer its local pad layout gives for the same pad and for the query point converted to local coordinates (local angles shifted by full turns into the turn that starts at the lower edge of the local module extent), with positions in the answer converted to global coordinates. It reports the constructed module ID, coordinate type and read-out frequency and the values last set for offset, angle, border, frequency and z position; asking for a z position that was never set throws the dedicated exception.',
 ['inputs', 'configurations'], 'all modules over any layout implementation, all arguments',
 'the module composes an arbitrary layout with an arbitrary transformation; tests combine few of them with identity or simple transformations.',
 TPCM, [('delegating member functions', 'include/gear/gearimpl/TPCModuleImpl.h, src/gearimpl/TPCModuleImpl.cc')], ['TPCModule interface'])

prop('C10', 'Module area: inside test, distance and extents describe the same region',
 'A point is reported inside a TPC module exactly when its local coordinates lie in the local module extent (angles modulo full turns), which is exactly when its distance to the module is zero; outside, for points at positive local radius in a polar layout, the distance is the Euclidean distance to that region (a box, or a ring sector spanning up to a full turn). The local module extent is the plane extent of the pad layout enlarged by the border on every side (in a polar layout the inner radius stops at zero and the angles are enlarged by the border divided by the inner radius, at most to a full turn). For a TPC in Cartesian coordinates the global module and plane extents are the smallest box containing the local regions after conversion to global coordinates (for polar layouts with local angles between minus and plus two pi), and they follow every later change of offset, angle, z position and border.',
 ['inputs', 'configurations', 'histories'], 'all module placements, borders, layouts and points; all orders of the setters',
 'geometry over a continuum with many case distinctions; tests look at a few hand-picked configurations.',
 TPCM, [('isInsideModule, getDistanceToModule', 'src/gearimpl/TPCModuleImpl.cc'), ('convertLocalPlaneToGlobalPlaneExtend, calculateGlobalExtent*', 'src/gearimpl/TPCModuleImpl.cc')],
 ['isInsideModule', 'getDistanceToModule', 'getModuleExtent', 'getPlaneExtent', 'getLocalModuleExtent'])

TPCP = ['src/gearimpl/TPCParametersImpl.cc', 'include/gear/gearimpl/TPCParametersImpl.h']
prop('C11', 'The TPC keeps exactly the modules added, under unique IDs',
 'After any sequence of additions a TPC contains exactly the accepted modules in the order they were added, and looking up a module ID returns the accepted module with that ID or throws the library exception if there is none. A missing module, a module whose TPC coordinate type differs from that of the TPC, and a module whose ID is already in use are rejected with the library exception and change nothing. The plane extent of the TPC is the smallest box that contains the module extents of all modules (each taken when it was added), the cathode lies midway between the end plates when modules in both half TPCs have z positions and one drift length from the end plate when only one half has (the z position of the first module of each half decides; without a z position there the cathode stays where it is), and the accessors that need exactly one module throw the library exception otherwise.',
 ['inputs', 'histories'], 'all sequences of additions and drift length changes with all module IDs, types and z positions',
 'histories of additions; tests add up to a few modules in one order and never add a duplicate after other operations.',
 TPCP, [('addModule, getModule, setCathodePosition', 'src/gearimpl/TPCParametersImpl.cc')], ['addModule', 'getModule', 'getModules', 'getPlaneExtent'],
 [('_moduleIDMap', 'module ID to position in the module list', 'include/gear/gearimpl/TPCParametersImpl.h')])

prop('C12', 'TPC point queries pick the best module of the right half',
 'The nearest module of a TPC for a point is a module of the TPC to which no other module is closer, and the nearest pad is the (module, pad) pair whose pad, nearest within its module, is at the smallest distance over all modules. A point is inside the TPC modules (or pads) exactly when it is inside some module (or some pad of some module). With a z coordinate only the modules of that side of the cathode are considered (z at or below the cathode position is the negative side; modules without z position count for both sides), and without any candidate module the nearest queries throw the library exception and the inside queries answer false.',
 ['inputs', 'histories', 'configurations'], 'all TPCs with any number of modules, all points and z',
 'quantifies over any number of modules and all points; tests use at most a few modules on a coarse grid.',
 TPCP, [('getNearestModule, getNearestPad, isInsideModule, isInsidePad', 'src/gearimpl/TPCParametersImpl.cc')],
 ['getNearestModule', 'getNearestPad', 'isInsideModule', 'isInsidePad'])

prop('C13', 'Named parameters: what is stored under a name and type is what is read back',
 'Every object with user parameters returns for a name and type (integer, double, string and their lists) exactly the value last stored under that name in that type; values of different types under the same name do not interfere, storing one parameter never changes another, and reading a name that was never stored in that type throws the unknown-parameter exception and stores nothing. The key list of each type holds exactly the names stored in that type, once each, in ascending order.',
 ['inputs', 'histories'], 'all sequences of stores and reads over any names, types and values',
 'histories over arbitrary names; tests store a few names and read them back in one order.',
 ['src/gearimpl/GearParametersImpl.cc', 'include/gear/gearimpl/GearParametersImpl.h'],
 [('setters, getters and key lists', 'src/gearimpl/GearParametersImpl.cc')], ['GearParameters interface'])

prop('C14', 'The detector manager keeps each description in its own slot',
 'The manager returns for every kind of detector description exactly the object last stored for that kind, and the unknown-parameter exception while nothing has been stored; storing one kind never changes what is returned for another. User sections are kept by name (the last stored object of a name wins) and all names are listed exactly once in ascending order. Materials are registered by their name exactly once: a second registration of a name is rejected with the library exception and keeps the first, and unknown names throw the unknown-parameter exception.',
 ['inputs', 'histories'], 'all sequences of stores and reads on a manager',
 'histories over a dozen near-identical accessors; a copy-paste slip in one of them is invisible unless that slot is used together with another.',
 ['src/gearimpl/GearMgrImpl.cc', 'include/gear/gearimpl/GearMgrImpl.h'],
 [('set/get pairs', 'src/gearimpl/GearMgrImpl.cc'), ('registerSimpleMaterial', 'src/gearimpl/GearMgrImpl.cc')], ['GearMgr interface'])

prop('C15', 'Calorimeter layers are stacked without gaps',
 'The layers of a calorimeter keep the order in which they were added. A layer that is added starts where the layer before it ends (at 0 if it is the first), a layer that is positioned starts at the distance it was given, and every layer keeps its thickness, cell sizes and absorber thickness as given (absorber thickness 0 when unspecified); later additions never change earlier layers. A layer index outside the existing layers is rejected with an exception. Type, symmetry order and phi0 are returned as given at construction, and the extent of a barrel is [inner radius, end of the last layer, 0, zmax], that of an endcap [inner radius, outer radius, zmin, end of the last layer] (the inner radius or zmin instead while there is no layer).',
 ['inputs', 'histories'], 'all sequences of layer additions with any values',
 'histories of additions with default arguments; tests build one stack.',
 ['src/gearimpl/LayerLayoutImpl.cc', 'include/gear/gearimpl/LayerLayoutImpl.h', 'src/gearimpl/CalorimeterParametersImpl.cc'],
 [('positionLayer / addLayer', 'src/gearimpl/LayerLayoutImpl.cc')], ['LayerLayout interface'])

prop('C16', 'Planar vertex layers: stored ladders and point-in-ladder geometry',
 'A planar ladder layout returns for every layer the values given when it was added (the angle phi0 up to rounding), in the order of addition, and derives the inner and outer phi edges of the first ladder (in the internal angle that runs clockwise from the y-axis) and the largest radius, of the ladder and of the sensitive volume each, from exactly those values. For layers with at least one ladder and positive distance, thickness, width and length a point is reported inside a ladder (or sensitive) volume exactly when, up to a tolerance of about 1e-4, it lies in one of the boxes described by the layers (from the distance outwards by the thickness, the width about the offset in direction of increasing phi, |z| from half the gap over the length), each repeated for every ladder by turning it about z by equal angles starting at phi0, and inside the shell in |z| if a shell length is given; the sensor reported for a point in a sensitive volume names a layer and a module whose box contains the point, and the side by the sign of z. The distance vector from a point to the nearest ladder (or sensitive volume) is zero for a point reported inside one and otherwise ends on the surface of a box to which no other box is closer.',
 ['inputs', 'configurations'], 'all layer sequences and all points',
 'a continuum of points and ladder arrangements; tests probe a few points of one detector.',
 ['src/gearimpl/ZPlanarLayerLayout.cc', 'src/gearimpl/ZPlanarParametersImpl.cc'],
 [('addLayer and accessors', 'src/gearimpl/ZPlanarLayerLayout.cc'), ('isPointInLadder, distanceToNearestLadder', 'src/gearimpl/ZPlanarParametersImpl.cc')], ['ZPlanarLayerLayout', 'ZPlanarParameters'])

prop('C17', 'Forward disk layers return what was stored and locate their sensors',
 'A forward tracking disk layout returns for every disk the values given when it was added, in the order of addition: numbers of petals and sensors, double sidedness, sensor type, angles, z position, offset and its sign, and the support and sensitive dimensions each its own; adding a disk leaves the earlier ones unchanged. With N disks added, index N+i is the mirror disk at negative z of disk i with the same values, and an index outside 0..2N-1 is rejected with an exception. For a disk at positive z whose two trapezoid lengths differ, the support of petal p lies at the z position plus the offset, times the sign of petal 0 for even p and the opposite sign for odd p, negated for the mirror disk; a sensor lies half of the support plus sensitive thickness from the support, away from the interaction point if the disk is double sided and the (1-based) sensor index exceeds half the number of sensors, otherwise towards it; a sensor index outside 1..n is rejected with an exception of the library. The phi of petal p is phi0 plus 2p half petal angles, and the maximum radius of disk i<N is the inner radius plus the width, of the support or sensitive area as asked.',
 ['inputs', 'histories'], 'all layer sequences and values',
 'many near-identical accessors over any number of layers; tests only load one steering file.',
 ['src/gearimpl/FTDLayerLayoutImpl.cc', 'include/gear/gearimpl/FTDLayerLayoutImpl.h', 'src/gearimpl/FTDParametersImpl.cc'],
 [('addLayer and accessors', 'src/gearimpl/FTDLayerLayoutImpl.cc')], ['FTDLayerLayout'])

prop('C18', 'Beam telescope planes return exactly the description that was stored',
 'For the beam-test telescope descriptions (silicon planes and tracker planes) every layer keeps the values it was added with - identifiers, positions, sizes, thickness, rotations, radiation lengths, pixel numbers, pitches, resolutions and the info string - and each accessor returns exactly its own value of its own layer, in the order of addition; setting one value changes only that value. The separately stored device under test has its own values, which adding layers never changes and vice versa. For silicon planes an index outside the stored layers is rejected with an exception, for tracker planes the answer is the null pointer. A tracker plane layer added to a description is copied with all its material and sensitive planes, and looking a layer up by identifier finds a layer with that identifier if and only if there is one.',
 ['inputs', 'histories'], 'all layer sequences and values',
 'dozens of near-identical accessors; tests read one file back and only print.',
 ['src/gearimpl/SiPlanesLayerLayout.cc', 'include/gear/gearimpl/SiPlanesLayerLayoutImpl.h', 'src/gearimpl/TrackerPlanesLayerLayout.cc', 'include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h', 'include/gear/gearimpl/SiPlanesParametersImpl.h', 'include/gear/gearimpl/TrackerPlanesParametersImpl.h'],
 [('addLayer / addDUT and accessors', 'src/gearimpl/SiPlanesLayerLayout.cc')], ['SiPlanesLayerLayout', 'TrackerPlanesLayerLayout'])

XML = ['src/gearxml/GearXML.cc', 'src/gearxml/GearParametersXML.cc', 'src/gearxml/CalorimeterParametersXML.cc', 'src/gearxml/TPCParametersXML.cc', 'src/gearxml/TPCModuleXML.cc',
       'src/gearxml/ZPlanarParametersXML.cc', 'src/gearxml/FTDParametersXML.cc', 'src/gearxml/SiPlanesParametersXML.cc', 'src/gearxml/TrackerPlanesParametersXML.cc',
       'src/gearxml/ConstantBFieldXML.cc', 'src/gearxml/SimpleMaterialXML.cc', 'src/gearxml/RectangularPadRowLayoutXML.cc', 'src/gearxml/FixedPadAngleDiskLayoutXML.cc',
       'src/gearxml/FixedPadSizeDiskLayoutXML.cc', 'src/gearxml/VersatileDiskRowLayoutXML.cc']
prop('C19', 'Saving a detector description to XML and loading it gives the same description',
 'Writing any set of detector descriptions to an XML file and loading that file gives a manager with the same kinds of detectors, whose geometric queries give the same answers as the originals up to the printed number precision. (Calorimeter layers are stacked from the inner face without gaps, and layers that differ by less than 1e-4 are described as equal; sensitive resolutions are not negative; the sensor and ladder technology is one of the named ones; repeated pad rows are described row by row.)',
 ['inputs', 'configurations'], 'all supported detector kinds, layouts and values',
 'writers and readers are separate functions per detector that must agree on every attribute name, unit and nesting; tests convert a few files and do not compare values.',
 XML, [('toXML / fromXML pairs', 'src/gearxml/*XML.cc')], ['GearXML::createXMLFile', 'GearXML::createGearMgr'])

prop('C20', 'User parameters survive the XML round trip',
 'User parameters of any object written to XML and read back have the same names and types, and the same values: integers exactly, doubles up to the printed precision, strings and string lists exactly as long as each string is a single non-empty word and lists are not empty (parameters without a value are skipped).',
 ['inputs'], 'all parameter sets',
 'arbitrary names, values and list lengths; tests use a few fixed parameters.',
 ['src/gearxml/GearParametersXML.cc'], [('getXMLForParameters / setParametersFromXML', 'src/gearxml/GearParametersXML.cc')], ['GearXML'])

prop('C21', 'Malformed detector XML is rejected, never silently defaulted',
 'When a mandatory attribute or element of a detector description is missing, loading the file throws the parse exception instead of continuing with an invented value, and a detector whose type has no reader, or a section without a name, is rejected the same way (a section without a type is skipped with a message). A file that is missing, empty, cut off or repeats an attribute is rejected too, and a failed load leaves no manager behind. Optional attributes that are absent take their documented default.',
 ['inputs'], 'all files obtained from valid ones by deleting mandatory parts',
 'there are hundreds of mandatory attributes; tests only load valid files.',
 XML, [('getMandatoryAttributeAsString / getOpenAttributeAsString', 'src/gearxml/')], ['GearXML::createGearMgr'])

prop('C22', 'Merging two XML files keeps everything and lets the dominant file win',
 'The merged file contains every detector and every material of both files, and a field if one of them has one; for a detector present in both, the description of the dominant file wins wherever both define a value, and parts only the other file has are added (named elements are merged by name; unnamed parts that occur in different numbers are refused with an exception). Files that are not geometry files are refused and nothing is written.',
 ['inputs'], 'all pairs of valid files',
 'quantifies over pairs of files; the merge test uses a single pair.',
 ['src/gearxml/MergeXML.cc'], [('mergeFiles / mergeNode', 'src/gearxml/MergeXML.cc')], ['MergeXML::mergeFiles'])

prop('C23', 'Measurement surface coordinates and boundaries are exact',
 'The local and world coordinates of a measurement surface are related by one rotation and translation: the world point is the given origin plus the rotated local point, the local axes are the rotated unit vectors, and for any rotation converting a world point to local coordinates and back (or the other way round) returns the point. A local point is inside a rectangular boundary exactly when, after turning back by the angle of the boundary, its coordinates are at most half the width and half the length, and inside a trapezoidal boundary exactly when it lies within the trapezoid with the given bases at the ends of its height, centred at the origin; in both cases at most the given distance off the plane. A surface without boundary contains every point, one with a boundary contains a local point exactly when the boundary does and a world point exactly when it contains the local coordinates of the point.',
 ['inputs'], 'all positions, rotations, boundary dimensions and points',
 'continuum of points; no existing test calls these functions.',
 ['src/gearsurf/CartesianCoordinateSystem.cc', 'src/gearsurf/BoundaryRectangle.cc', 'src/gearsurf/BoundaryTrapezoid.cc', 'src/gearsurf/MeasurementSurface.cc'],
 [('getLocalPoint / getWorldPoint', 'src/gearsurf/CartesianCoordinateSystem.cc'), ('isInBoundary', 'src/gearsurf/Boundary*.cc')], ['MeasurementSurface'])

prop('C24', 'The surface store maps every cell identifier to its own surface',
 'A surface added to the store by a filler is returned for its identifier and for no other; asking for an identifier that is not in the store is rejected with an exception. A filler that gives two surfaces with the same identifier is rejected with an exception and leaves the store empty and fillable, and the store accepts exactly one successful fill: afterwards it keeps its surfaces and its filler name, and every further fill is rejected with an exception. A store that is not filled has no filler name (exception), and a copy of a store answers like the original.',
 ['inputs', 'histories'], 'all sequences of fills with any identifiers',
 'histories over any identifiers; tests fill the store at most once.',
 ['src/gearsurf/MeasurementSurfaceStore.cc', 'include/gear/gearsurf/MeasurementSurfaceStore.h'],
 [('FillStore / addSurface / GetMeasurementSurface', 'src/gearsurf/MeasurementSurfaceStore.cc')], ['MeasurementSurfaceStore'])

prop('C25', 'Vectors obey vector algebra in every coordinate representation',
 'Three-vectors built from Cartesian, cylindrical or spherical components, from arrays or from other vector classes have exactly the point those components describe; length, transverse length, azimuth (in (-pi,pi], 0 on the axis) and polar angle are those of the point, so that building a vector from the cylindrical or spherical components of another gives the same point. Addition, subtraction, scaling, dot and cross product, equality and normalisation of a non-zero vector are those of real vectors and leave the operands unchanged, and setting one component changes only that one.',
 ['inputs'], 'all component values',
 'continuum of inputs; the vector tests compare a handful of values.',
 ['include/gear/Vector3D.h', 'include/gear/GEAR.h', 'src/gearimpl/Vector3D.cc'],
 [('Vector3D', 'include/gear/Vector3D.h')], ['Vector3D'])

if __name__ == '__main__':
    ids = [p['id'] for p in P]; assert len(ids) == len(set(ids))
    with open(OUT, 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
