"""which contract modules, translation units and drivers belong to a property"""
G = 'gearimpl/'
LAY = [G + x for x in ('FixedDiskLayoutBase.cc', 'FixedPadAngleDiskLayout.cc', 'FixedPadSizeDiskLayout.cc', 'RectangularPadRowLayout.cc', 'VersatileDiskRowLayout.cc')]
GLOB = [G + 'GlobalPadIndex.cc']
EXC = [G + 'GEAR.cc']
ALLIMPL = [G + x + '.cc' for x in ('CalorimeterParametersImpl', 'FTDLayerLayoutImpl', 'FTDParametersImpl', 'FixedDiskLayoutBase', 'FixedPadAngleDiskLayout', 'FixedPadSizeDiskLayout', 'GEAR', 'GearMgrImpl', 'GearParametersImpl',
           'GlobalPadIndex', 'LayerLayoutImpl', 'RectangularPadRowLayout', 'SiPlanesLayerLayout', 'SiPlanesParametersImpl', 'TPCModuleImpl', 'TPCParametersImpl', 'TrackerPlanesLayerLayout', 'TrackerPlanesParametersImpl', 'Util', 'Vector3D',
           'VersatileDiskRowLayout', 'ZPlanarLayerLayout', 'ZPlanarParametersImpl')]
XMLS = ['gearxml/' + x + '.cc' for x in ('CalorimeterParametersXML', 'ConstantBFieldXML', 'FTDParametersXML', 'FixedPadAngleDiskLayoutXML', 'FixedPadSizeDiskLayoutXML', 'GearParametersXML', 'GearXML', 'MergeXML', 'PadRowLayout2DXML',
        'RectangularPadRowLayoutXML', 'SiPlanesParametersXML', 'SimpleMaterialXML', 'TPCModuleXML', 'TPCParametersXML', 'TrackerPlanesParametersXML', 'VersatileDiskRowLayoutXML', 'XMLHandlerMgr', 'ZPlanarParametersXML')]
TINY = ['gearxml/' + x + '.cc' for x in ('tinyxml', 'tinyxmlerror', 'tinyxmlparser')]
SURF = ['gearsurf/' + x + '.cc' for x in ('BoundaryRectangle', 'BoundaryTrapezoid', 'CartesianCoordinateSystem', 'MeasurementSurface', 'MeasurementSurfaceStore')]
SIP = [G + x + '.cc' for x in ('SiPlanesLayerLayout', 'SiPlanesParametersImpl', 'TrackerPlanesLayerLayout', 'TrackerPlanesParametersImpl')]
ZPL = [G + x for x in ('ZPlanarLayerLayout.cc', 'ZPlanarParametersImpl.cc')]
FTD = [G + 'FTDLayerLayoutImpl.cc', G + 'FTDParametersImpl.cc']
PAR = [G + 'GearParametersImpl.cc']
TPC = LAY + GLOB + [G + x for x in ('TPCModuleImpl.cc', 'TPCParametersImpl.cc', 'GearParametersImpl.cc')]
HVEC = [__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'harness', 'vec.cc')]
CLH = [('gearsurf/CartesianCoordinateSystem.cc', f) for f in ('CLHEP::Hep3Vector', 'CLHEP::HepRotation', 'CLHEP::operator')]
PROPS = {
    'C01': dict(mods=['layouts'], tus=LAY + GLOB, libs=LAY + GLOB + EXC),
    'C02': dict(mods=['layouts'], tus=LAY, libs=LAY + EXC),
    'C03': dict(mods=['layouts'], tus=LAY, libs=LAY + EXC),
    'C04': dict(mods=['layouts'], tus=LAY, libs=LAY + EXC),
    'C05': dict(mods=['layouts'], tus=LAY, libs=LAY + EXC),
    'C06': dict(mods=['layouts'], tus=LAY, libs=LAY + EXC),
    'C07': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C08': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C09': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C10': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C11': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C12': dict(mods=['tpc'], tus=TPC, libs=TPC + EXC),
    'C13': dict(mods=['params'], tus=PAR, libs=PAR + EXC),
    'C14': dict(mods=['params'], tus=[G + 'GearMgrImpl.cc'], libs=ALLIMPL + SURF, ldflags='-lCLHEP'),
    'C15': dict(mods=['layers'], tus=[G + x + '.cc' for x in ('LayerLayoutImpl', 'CalorimeterParametersImpl')] + PAR, libs=[G + x + '.cc' for x in ('LayerLayoutImpl', 'CalorimeterParametersImpl')] + PAR + EXC),
    'C18': dict(mods=['layers'], tus=SIP + PAR, libs=SIP + PAR + EXC),
    'C25': dict(mods=['surf'], tus=HVEC, libs=[G + 'Vector3D.cc']),
    'C23': dict(mods=['surf'], tus=CLH + SURF[:4], libs=SURF[:4] + EXC, ldflags='-lCLHEP'),
    'C24': dict(mods=['surf'], tus=SURF, libs=SURF + EXC, ldflags='-lCLHEP'),
    'C16': dict(mods=['layers'], tus=ZPL + PAR, libs=ZPL + PAR + [G + 'Vector3D.cc'] + EXC, limit=500, bounded=['every point in a box is reported (isPointInLadder returns true)', 'distanceToNearestLadder: nearest of all boxes']),
    'C17': dict(mods=['layers'], tus=FTD + PAR, libs=FTD + PAR + EXC),
    'C19': dict(mods=['xml'], tus=XMLS, libs=XMLS + TINY + ALLIMPL + SURF, ldflags='-lCLHEP'),
    'C20': dict(mods=['xml'], tus=XMLS, libs=XMLS + TINY + ALLIMPL + SURF, ldflags='-lCLHEP'),
    'C21': dict(mods=['xml'], tus=XMLS, libs=XMLS + TINY + ALLIMPL + SURF, ldflags='-lCLHEP'),
    'C22': dict(mods=['xml'], tus=XMLS, libs=XMLS + TINY + ALLIMPL + SURF, ldflags='-lCLHEP'),
}
