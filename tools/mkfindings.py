#!/usr/bin/env python3
"""Regenerates /verif/known_findings.json. Fixed entries suppress nothing; known entries name the failing inputs."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
F = []
def fixed(prop, commit, what): F.append({'id': 'F%02d' % (len(F) + 1), 'status': 'fixed', 'property': prop, 'commit': commit, 'what': what, 'text': 'fixed: property=%s %s %s' % (prop, commit, what)})
def known(id, prop, what, keys=(), obligations=()): F.append({'id': id, 'status': 'known', 'property': prop, 'what': what, 'keys': list(keys), 'obligations': list(obligations)})

fixed('C01', 'bb7e672', 'getPadIndex accepted negative row and pad numbers and returned colliding indices')
fixed('C06', 'bd29e16', 'a rejected addRow of the rectangular and versatile layouts still changed the pad count')
fixed('C06', '688dd88', 'RectangularPadRowLayout::repeatRows(0) wrapped around and repeated without end')
fixed('C03', 'afb18a3', 'a copied RectangularPadRowLayout listed its rows through an empty cache (out of bounds access)')
fixed('C07', '9bc1d51', 'self-assignment of a pad layout freed its own pad lists')
fixed('C06', '2e7f24e', 'VersatileDiskRowLayout::Row radial limits and wrap of offsets beyond a full turn')
fixed('C06', '32a7fe4', 'plane extent of a VersatileDiskRowLayout ignored repeated rows')
fixed('C04', '8dab603', 'VersatileDiskRowLayout nearest pad ignored the row offset')
fixed('C04', '181391b', 'VersatileDiskRowLayout::isInsidePad not modulo full turns')
fixed('C04', '6040596', 'FixedPadAngleDiskLayout::getNearestPad threw at the upper phi edge')
fixed('C04', '04dd208', 'FixedPadSizeDiskLayout::getNearestPad not modulo full turns')
fixed('C04', 'e6ee948', 'VersatileDiskRowLayout nearest pad beyond the row ends did not exist')
fixed('C05', 'd45ffdb', 'RectangularPadRowLayout::getNearestPad looked at rows beyond the first and last one')
fixed('C05', '831f168', 'RectangularPadRowLayout::getNearestPad could loop forever')
fixed('C05', '1555d2a', 'RectangularPadRowLayout::getNearestPad threw on the right edge of a row')
fixed('C07', '5fb000f', 'copying or assigning a TPCParametersImpl recursed without end; self-assignment destroyed the modules')
fixed('C07', 'e2dfef1', 'copies of a TPCModuleImpl lost the user parameters; self-assignment freed the pad layout')
fixed('C08', '8935356', 'globalToLocal checked offset[0] twice and wrapped large angles the wrong way')
fixed('C10', '4be1760', 'the border of a module with polar pad layout extended beyond a full turn and below radius 0')
fixed('C08', 'c527f64', 'setZPosition had no effect on the coordinates and extents of the module')
fixed('C10', '07eb96a', 'a new module with polar pad layout in a Cartesian TPC had polar extents')
fixed('C09', 'fcc1bf5', 'isInsidePad and getDistanceToPad of a module not modulo turns for pads at negative local angles')
fixed('C14', 'dde3dad', 'storing the stored TPC parameters or parameter section again deleted the object while it stayed registered')
fixed('C18', 'ac76b62', 'the layout of tracker planes answered 0 for any ID that was set')
fixed('C17', '2114e3c', 'the mirrored disk of a forward layout was found for a fixed number of disks only, beyond it indices of disks at negative z were rejected or gave other disks')
fixed('C17', '3db7290', 'adding a forward disk wrote the frame vectors past the end of an empty vector')
fixed('C24', '0ba2ee3', 'a rejected fill of the surface store left the surfaces added before the error, no later fill could succeed')
fixed('C16', 'f2c7e83', 'getStartOuterPhi and getEndOuterPhi gave the edges of the other volume (ladder instead of sensitive)')
fixed('C16', '965ff8e', 'points on the negative y-axis (and with y = -0) were taken to be at the opposite side and not found in ladders')
fixed('C16', '3811f64', 'ladders whose phi is more than one turn away from the range were not found')
fixed('C16', '5157e33', 'points near the outer edge of a ladder with an offset beyond half its width were not found to be inside')
fixed('C16', '5553d83', 'the nearest ladder ignored layers with one or two ladders, ladders at larger angles, and the origin')
fixed('C16', '49d12b5', 'the maximum radius was rounded to float, points in the outer corners of large ladders were rejected')
fixed('C19', '3d321d6', 'the pad number of a FixedPadAngleDiskLayout was written under another name than it is read from')
fixed('C19', '51ede53', 'repeated rows of a RectangularPadRowLayout were written once only')
fixed('C19', '02c2aef', 'VersatileDiskRowLayout: pitch and offset written in other units than read, pad width not read')
fixed('C19', '1b365f0', 'the readout frequency of a TPC module was read as an integer')
fixed('C19', 'bc7d408', 'the TPC drift velocity written was not read back')
fixed('C19', '46dff48', 'layers of tracker planes were written where they are not read, without ID and info')
fixed('C19', '3c8ec0a', 'rotations and resolutions of sensitive planes were not all written')
fixed('C19', 'b77e35f', 'doubles were written with six digits')
fixed('C20', '5aee388', 'lists of doubles were written with six digits')
fixed('C21', 'e439b6c', 'missing elements of a detector description crashed the reader')
fixed('C21', '0f2ea04', 'a partially filled manager was kept after a parse error')
fixed('C21', '8e5de86', 'unterminated attribute, text or comment: read past the end of the file')
fixed('C21', '2eb610c', 'a file cut off before an element is closed was accepted')
fixed('C21', '28c86c2', 'a repeated attribute ended the reading silently')
fixed('C21', '89da7f9', 'a multi-byte character cut off at the end of the file was read beyond the end')
fixed('C22', 'e1e7313', 'merging a named element without children dereferenced a null pointer')
fixed('C22', 'd2a9e0c', 'merging files without global, field or materials crashed; field, materials and GDML file of the recessive file were lost')
json.dump(F, open(os.path.join(H, 'known_findings.json'), 'w'), indent=1)
print(len(F))
