From bb7e6722fb04da9ec35efeab5787dcb44fd1405d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 01/50] fix: reject negative row and pad numbers in getPadIndex
 of all pad layouts

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 4 ++--
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 4 ++--
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 33bd24c..229a6d4 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -188,12 +188,12 @@ namespace gear {
 
   int FixedPadAngleDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-      if( rowNum  > _nRow - 1 )
+      if( rowNum < 0 || rowNum > _nRow - 1 )
       {
 	  throw std::out_of_range(" FixedPadAngleDiskLayout::getPadIndex row number too large !");
       }
     
-    if( padNum > _nPadsInRow - 1 ) {
+    if( padNum < 0 || padNum > _nPadsInRow - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 7466118..3d6d44f 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -237,12 +237,12 @@ namespace gear {
 
   int FixedPadSizeDiskLayout::getPadIndex(int rowNum, int padNum) const {
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || rowNum >= (int) _rows.size() ) {
 
       throw std::out_of_range(" FixedPadSizeDiskLayout::getPadIndex row number too large !");
     }
 
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
 
       std::stringstream sstr ;
 
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4be80a1..4871d7b 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -274,12 +274,12 @@ namespace gear {
   int RectangularPadRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || rowNum >= (int) _rows.size() ) {
       
       throw std::out_of_range(" RectangularPadRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].NPad - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].NPad - 1 ) {
       
       std::stringstream sstr ;
       
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 1e8c11f..bce0413 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -225,12 +225,12 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   int VersatileDiskRowLayout::getPadIndex(int rowNum, int padNum) const { 
 
 
-    if( (unsigned) rowNum > _rows.size() - 1 ) {
+    if( rowNum < 0 || rowNum >= (int) _rows.size() ) {
       
       throw std::out_of_range(" VersatileDiskRowLayout::getPadIndex row number too large !");
     }
     
-    if( padNum > _rows[rowNum].getNPads() - 1 ) {
+    if( padNum < 0 || padNum > _rows[rowNum].getNPads() - 1 ) {
       
       std::stringstream sstr ;
       
-- 
2.43.0


From bd29e16571353c553d66325293ca7da1965074cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 02/50] fix: rejected rows no longer change the pad count of
 the layout

---
 src/gearimpl/RectangularPadRowLayout.cc | 4 ++--
 src/gearimpl/VersatileDiskRowLayout.cc  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 4871d7b..a448db5 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -89,8 +89,6 @@ namespace gear {
 
     Row row ; 
 
-    _nPad += abs( nRow ) * abs( nPad )  ;
-    
     row.WidthPerPad = rowWidth / nPad ;
 
     if( rowHeight == 0.0 ) 
@@ -106,6 +104,8 @@ namespace gear {
     }
 
 
+    _nPad += abs( nRow ) * abs( nPad )  ;
+
     row.NPad = nPad  ;
     row.PadWidth = padWidth ;
     row.PadHeight = padHeight ;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index bce0413..c3b62a7 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -77,8 +77,6 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 
     double rCentre = _extent[1] + rowHeight*0.5;
 
-    _nPad +=  repeat*nPads ;
-
     for (int i = 0; i < repeat; i++)
     {
 	_rows.push_back( Row(_rows.size(), nPads, rCentre, padPitch , rowHeight , 
@@ -87,6 +85,8 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 	rCentre += rowHeight;
     }
 
+    _nPad +=  repeat*nPads ;
+
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
     if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-- 
2.43.0


From 688dd88cf7ac73e360e4a2b0c72af4a0ddfe8ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 03/50] fix: RectangularPadRowLayout::repeatRows(0) no longer
 wraps around and repeats forever

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index a448db5..a1ae1e8 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -140,7 +140,7 @@ namespace gear {
     
     int nRow = _rows.size() ;
     
-    for(unsigned i=0 ; i< count-1 ; ++i ){
+    for(unsigned i=1 ; i< count ; ++i ){
       for(int j=0 ; j< nRow; ++j ){
 	
 	const Row& r = _rows[j] ;
-- 
2.43.0


From afb18a384c18f41b9fa4976ce8f5c5123245c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 04/50] fix: copies of a RectangularPadRowLayout list the pads
 of their rows

---
 src/gearimpl/RectangularPadRowLayout.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index a1ae1e8..19cb64b 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -44,7 +44,7 @@ namespace gear {
       // In every instance, also the copied ones, it is filled only at first
       // usage to save memory
       // just like in the constructor
-      _padIndices.resize( _nRow ) ;
+      _padIndices.resize( _rows.size() ) ;
       for (std::vector< std::vector<int>* >::iterator rowIter = _padIndices.begin() ; 
 	   rowIter < _padIndices.end(); rowIter++)
       {
-- 
2.43.0


From 9bc1d51194f033e971a43669954a34e3bd59954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 05/50] fix: self-assignment of a pad layout no longer frees
 its own pad lists

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 1 +
 src/gearimpl/FixedPadSizeDiskLayout.cc  | 1 +
 src/gearimpl/RectangularPadRowLayout.cc | 1 +
 src/gearimpl/VersatileDiskRowLayout.cc  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 229a6d4..2a4c2cf 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -114,6 +114,7 @@ namespace gear {
 
   FixedPadAngleDiskLayout & FixedPadAngleDiskLayout::operator = ( const FixedPadAngleDiskLayout & right) 
   {
+      if( this == &right ) return *this;
       cleanup();
       copy_and_assign(right);
       return *this;
diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index 3d6d44f..df921a4 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -125,6 +125,7 @@ namespace gear {
 
   FixedPadSizeDiskLayout & FixedPadSizeDiskLayout::operator = ( const FixedPadSizeDiskLayout & right)
   {
+      if( this == &right ) return *this;
       cleanup();
       copy_and_assign(right);
       return *this;
diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 19cb64b..734362d 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -212,6 +212,7 @@ namespace gear {
     
     RectangularPadRowLayout & RectangularPadRowLayout::operator = (const  RectangularPadRowLayout & right)
     {
+      if( this == &right ) return *this;
 	cleanup();
 	copy_and_assign(right);
 	return *this;
diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index c3b62a7..4b7d7c5 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -163,6 +163,7 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     
     VersatileDiskRowLayout & VersatileDiskRowLayout::operator = (const  VersatileDiskRowLayout & right)
     {
+      if( this == &right ) return *this;
 	cleanup();
 	copy_and_assign(right);
 	return *this;
-- 
2.43.0


From 2e7f24e62597bd57db165e4a20884a438466dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 06/50] fix: VersatileDiskRowLayout::Row radial limits and the
 wrap of offsets beyond a full turn

---
 src/gearimpl/VersatileDiskRowLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 4b7d7c5..537c460 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -364,7 +364,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
     if (_offset >=  2. * M_PI)
     {
 	_offset -= 2. * M_PI;
-	_offset_mm += rCentre*2. * M_PI;	
+	_offset_mm -= rCentre*2. * M_PI;	
     }
 
     _padPitch = _padPitch_mm / rCentre;
@@ -381,7 +381,7 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
     _phiMax = _offset + _padPitch*_nPads;
     _rMin = _rCentre - rowHeight*0.5;
-    _rMin = _rCentre + rowHeight*0.5;    
+    _rMax = _rCentre + rowHeight*0.5;
 }
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
-- 
2.43.0


From 32a7fe4dda3b67f4d65ed169d81c0cf04f900368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 07/50] fix: plane extent of a VersatileDiskRowLayout covers
 all repeated rows

---
 src/gearimpl/VersatileDiskRowLayout.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 537c460..d436f27 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -83,17 +83,19 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
 			     padWidth, padHeight, offset ) ); 
 	_padIndices.push_back( 0 );
 	rCentre += rowHeight;
+
+	// the angular extent of every row counts, also of the repeated ones
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
+	    _extent[2] = _rows.back().getPhiMin();
+	if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
+	    _extent[3] = _rows.back().getPhiMax();
     }
 
     _nPad +=  repeat*nPads ;
 
     // calculate correct plane extent
     _extent[1]+= repeat * rowHeight;
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMin() < _extent[2] ) )
-	_extent[2] = _rows.back().getPhiMin();
-    if ( (_rows.size() ==1) || (_rows.back().getPhiMax() > _extent[3] ) )
-	_extent[3] = _rows.back().getPhiMax();
-    
+
     if ( (_extent[3] - _extent[2]) > 2*M_PI )
     {
 	_extent[2] = 0.;
-- 
2.43.0


From 8dab603d21ad8d03e68decc0028b6b555bed4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 08/50] fix: VersatileDiskRowLayout finds the nearest pad of
 rows with an offset

---
 src/gearimpl/VersatileDiskRowLayout.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index d436f27..bfbee4c 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -388,10 +388,10 @@ VersatileDiskRowLayout::Row::Row(int rowNumber, int nPads, double rCentre, doubl
 
 int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to _offset <= phi < _offset + 2*M_PI, i. e. to the turn that starts with the row
+
+    while( phi < _offset             ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2.*M_PI  ) {  phi -= 2. * M_PI  ; }
 	
 	//
 
@@ -400,7 +400,10 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
     if (phi < _offset + _nPads * _padPitch)
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
-	
+
+	if ( padNumber > _nPads - 1 ) // rounding at the edge of the last pad
+	    padNumber = _nPads - 1;
+
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
     }
     else //outside the active angle
@@ -417,10 +420,10 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
 
 double VersatileDiskRowLayout::Row::getDistanceToRow(double r, double phi) const
 {
-    // wrap phi to 0 < phi < 2*M_PI
-    
-	while( phi < 0       ) {  phi += 2. * M_PI  ; }
-    while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
+    // wrap phi to _offset <= phi < _offset + 2*M_PI, i. e. to the turn that starts with the row
+
+    while( phi < _offset             ) {  phi += 2. * M_PI  ; }
+    while( phi >= _offset + 2.*M_PI  ) {  phi -= 2. * M_PI  ; }
 	
     // copy the code from getDistanceToPad....
 
-- 
2.43.0


From 181391b9536b5e7712297b451f3ccd00796524c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 09/50] fix: VersatileDiskRowLayout::isInsidePad treats angles
 modulo full turns

---
 src/gearimpl/VersatileDiskRowLayout.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index bfbee4c..6605f45 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -324,10 +324,10 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
     double phiMin = row.getOffset() + row.getPadPitch()*pn;
 
     // wrap phi to phiMin .. phiMin + 2*pi
-    if (phi < phiMin)
+    while (phi < phiMin)
 	phi += 2. * M_PI;
 
-    if (phi >= phiMin + 2*M_PI)
+    while (phi >= phiMin + 2*M_PI)
 	phi -= 2. * M_PI;
 
     double phiMax = phiMin + row.getPadPitch();
@@ -339,10 +339,11 @@ void VersatileDiskRowLayout::addRow( int nPads , double padPitch , double rowHei
   bool VersatileDiskRowLayout::isInsidePad(double r, double phi) const {
 
     //  outside of pad plane
-    if( r < _extent[0] || r > _extent[1] || 
-	phi < _extent[2] || phi > _extent[3] )
+    if( r < _extent[0] || r > _extent[1] )
       
       return false ;
+
+    // the angle is checked (modulo full turns) for the nearest pad
     
     return  isInsidePad( r , phi , getNearestPad( r, phi ) )  ;
   }
-- 
2.43.0


From 60405960357a663b39793fd884345a21ba56086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 10/50] fix: FixedPadAngleDiskLayout::getNearestPad accepts
 points on the upper phi edge

---
 src/gearimpl/FixedPadAngleDiskLayout.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/FixedPadAngleDiskLayout.cc b/src/gearimpl/FixedPadAngleDiskLayout.cc
index 2a4c2cf..240b228 100644
--- a/src/gearimpl/FixedPadAngleDiskLayout.cc
+++ b/src/gearimpl/FixedPadAngleDiskLayout.cc
@@ -225,7 +225,10 @@ namespace gear {
     {
 	// This is easy, the pad number in the row is the one corresponding to the angle
 	int padNumber = static_cast<int>( (phi - _phiMin) / _padAngle );
-	
+
+	if( padNumber >= _nPadsInRow ) // phi == _phiMax belongs to the last pad
+	    padNumber = _nPadsInRow - 1 ;
+
 	int rowNum = r < _rMin ? 0 : (int) std::floor( ( r - _rMin ) / _rowHeight  ) ;
     
 	if( rowNum >= _nRow  )       
-- 
2.43.0


From 04dd208eb3d5c5ef2392f37b9cc1323f34c19a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:20 +0000
Subject: [PATCH 11/50] fix: FixedPadSizeDiskLayout::getNearestPad treats
 angles modulo full turns

---
 src/gearimpl/FixedPadSizeDiskLayout.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FixedPadSizeDiskLayout.cc b/src/gearimpl/FixedPadSizeDiskLayout.cc
index df921a4..1464eb8 100644
--- a/src/gearimpl/FixedPadSizeDiskLayout.cc
+++ b/src/gearimpl/FixedPadSizeDiskLayout.cc
@@ -276,9 +276,10 @@ namespace gear {
 	
 	} else {
 	 
-	  while( phi < -2*M_PI       ) {  phi += 2. * M_PI  ; }
-	  while( phi > 2.*M_PI ) {  phi -= 2. * M_PI  ; }
-	  
+	  // wrap phi to a full turn centred on the layout
+	  while( phi < 0.5*_phiMax - M_PI ) {  phi += 2. * M_PI  ; }
+	  while( phi > 0.5*_phiMax + M_PI ) {  phi -= 2. * M_PI  ; }
+
 	  rProjectedOnPhiMax = r * cos(phi - _phiMax);
 	  rProjectedOnPhiMin = r * cos(phi - 0.);
 
-- 
2.43.0


From e6ee948a704a5b19586b456687d51df11412ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 12/50] fix: VersatileDiskRowLayout finds an existing nearest
 pad at the edges of a row

---
 src/gearimpl/VersatileDiskRowLayout.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/VersatileDiskRowLayout.cc b/src/gearimpl/VersatileDiskRowLayout.cc
index 6605f45..2bf0112 100644
--- a/src/gearimpl/VersatileDiskRowLayout.cc
+++ b/src/gearimpl/VersatileDiskRowLayout.cc
@@ -402,7 +402,10 @@ int VersatileDiskRowLayout::Row::getNearestPad(double r, double phi) const
     {
 	int padNumber = static_cast<int>(floor( (phi - _offset)/ _padPitch ));
 
-	if ( padNumber > _nPads - 1 ) // rounding at the edge of the last pad
+	// rounding at the edges of the row
+	if ( padNumber < 0 )
+	    padNumber = 0;
+	if ( padNumber > _nPads - 1 )
 	    padNumber = _nPads - 1;
 
 	return ( (_rowNumber<< 16) | (0x000ffff & padNumber) );
-- 
2.43.0


From d45ffdb55d10fd684c61359084222ca74bca9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 13/50] fix: RectangularPadRowLayout::getNearestPad does not
 look at rows beyond the first and last one

---
 src/gearimpl/RectangularPadRowLayout.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index 734362d..ba65a37 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -383,6 +383,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			
 			// check the next row of pads, it could be closer to them then this row
 			const int next_row_number = (y_displacement < 0)? row_number - 1: row_number + 1;
+			if( next_row_number < 0 || next_row_number >= (int)_rows.size() )
+				break; // there is no row on that side
+
 			const Row &next_row = _rows[next_row_number];
 
 			const double y_distance_from_pads = fabs(y_displacement) - (row.PadHeight/2);
-- 
2.43.0


From 831f168461f28ced1152b27e484bbb888dfb29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:00 +0000
Subject: [PATCH 14/50] fix: RectangularPadRowLayout::getNearestPad always
 terminates

---
 src/gearimpl/RectangularPadRowLayout.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index ba65a37..ffe30d3 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -366,7 +366,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 	// make a best guess at the starting row by assuming all rows are the same height
     int row_number = (int)( round( (_rows.size() - 1) * (y - _extent[2]) / (_extent[3] - _extent[2]) ) );
 
-    // do a binary search for the nearest row
+    // do a binary search for the nearest row, which is always in the range first_row ... last_row
+	int first_row = 0;
+	int last_row = (int)_rows.size() - 1;
+
 	while( true ) {
 
 		const Row &row = _rows[row_number];
@@ -396,6 +399,14 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 		}
 		else {
 			// it wasn't in this row... find the next best guess
+			if( y_displacement < 0 )
+				last_row = row_number - 1;
+			else
+				first_row = row_number + 1;
+
+			if( first_row > last_row )
+				break; // rounding at the edge of two rows or of the plane: this row is as good as any
+
 			int remaining_rows;
 			double remaining_distance;
 			double offset;
@@ -426,6 +437,10 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 			}
 
 			row_number += delta_row;
+
+			// stay in the range where the row has to be, otherwise the search can jump forth and back forever
+			if( row_number < first_row ) row_number = first_row;
+			if( row_number > last_row )  row_number = last_row;
 		}
 		
 		/*std::cout << "Hit Enter to continue... \n";
-- 
2.43.0


From 1555d2a8c1d260d74f574ef1786884b1a34501a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:27 +0000
Subject: [PATCH 15/50] fix: RectangularPadRowLayout::getNearestPad accepts
 points on the right edge of a row

---
 src/gearimpl/RectangularPadRowLayout.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearimpl/RectangularPadRowLayout.cc b/src/gearimpl/RectangularPadRowLayout.cc
index ffe30d3..9ba4355 100644
--- a/src/gearimpl/RectangularPadRowLayout.cc
+++ b/src/gearimpl/RectangularPadRowLayout.cc
@@ -465,6 +465,9 @@ int RectangularPadRowLayout::getNearestPad(double x, double y) const {
 
       pad_number =  (int) ( ( x - (  _extent[0] + row.LeftOffset ) )  /  row.WidthPerPad ) ;  
 
+      if( pad_number > row.NPad - 1 ) // rounding at the right edge of the row
+	pad_number = row.NPad - 1 ;
+
     }
 
     return getPadIndex( row_number , pad_number ) ;
-- 
2.43.0


From 5fb000f34740670a062934b42a05b6b76474fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 16/50] fix: copying and assigning a TPCParametersImpl no
 longer recurses without end

---
 src/gearimpl/TPCParametersImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearimpl/TPCParametersImpl.cc b/src/gearimpl/TPCParametersImpl.cc
index ff2a2c8..656c752 100644
--- a/src/gearimpl/TPCParametersImpl.cc
+++ b/src/gearimpl/TPCParametersImpl.cc
@@ -78,7 +78,7 @@ namespace gear {
 
 	// call the assignment operator of the GearParametersImpl mother class:
 	// *dynamic_cast<GearParametersImpl*>(this) = *dynamic_cast<GearParametersImpl const *>(&right);
-        this->operator = (right);
+        GearParametersImpl::operator = (right);
     }
 
     /// Destructor.
@@ -90,6 +90,7 @@ namespace gear {
     ///Assignment operator
     TPCParametersImpl & TPCParametersImpl::operator = (  const TPCParametersImpl & right)
     {
+	if ( this == &right ) return *this;
 	cleanup();
 	copy_and_assign( right );
 
-- 
2.43.0


From e2dfef15d2f3cfd059f53c67c35939ad6f39b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 17/50] fix: copies of a TPCModuleImpl keep the user
 parameters, self-assignment keeps the pad layout

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 0c07290..dbc5549 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1206,6 +1206,7 @@ namespace gear {
 
     TPCModuleImpl & TPCModuleImpl::operator = (const TPCModuleImpl &right)
     {
+	if ( this == &right ) return *this;
 	cleanup();
 	copy_and_assign( right);
 	return *this;
@@ -1232,6 +1233,9 @@ namespace gear {
 
 	// test all knows possible instances of padRowLayout
 	_padRowLayout = right._padRowLayout->clone();
+
+	// the user parameters
+	GearParametersImpl::operator = (right);
     }
 
 
-- 
2.43.0


From 8935356eaba56b2bd989aee07a739f4f70270d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 18/50] fix: TPCModuleImpl::globalToLocal checks both offsets
 and wraps large angles down

---
 src/gearimpl/TPCModuleImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index dbc5549..d8066c6 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -45,12 +45,12 @@ namespace gear {
 	        // the calculation is much easyer
 	        if ( (_padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR ) && 
 		     (_offset_cartesian[0] == 0 ) &&
-		     (_offset_cartesian[0] == 0 ) )
+		     (_offset_cartesian[1] == 0 ) )
 		{
 		    double localAngle = c1 - _angle ;
 		    // wrap to 0..2pi
 		    if (localAngle < 0) localAngle+= 2*M_PI;
-		    if (localAngle > 2*M_PI) localAngle+= 2*M_PI;
+		    if (localAngle > 2*M_PI) localAngle-= 2*M_PI;
 
 		    return Vector2D(c0, localAngle);
 		}
-- 
2.43.0


From 4be176037f36e6c76961a8f7846b7e0da01fb7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 19/50] fix: the border of a TPC module with polar pad layout
 stops at a full turn and at radius 0

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index d8066c6..1795bb5 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -213,7 +213,7 @@ namespace gear {
 		
 		    // first calculate the angle which corresponds to the border
 		    double phiBorder;
-		    if (_padRowLayout->getPlaneExtent()[1] > 0) // inner radius of pad plane > 0
+		    if (_padRowLayout->getPlaneExtent()[0] > 0) // inner radius of pad plane > 0
 			                                        // to avoid divide by 0
 		    {
 			//phiBorder = _border/_padRowLayout->getPlaneExtent()[1] * 2. *M_PI;
@@ -231,7 +231,8 @@ namespace gear {
 		    if (phiMax - phiMin > 2*M_PI)
 		    {
 			// the border should be half of the gap between the pad layout edged
-			phiBorder = (2*M_PI - phiMax + phiMin)/2.;
+			phiBorder = (2*M_PI - _padRowLayout->getPlaneExtent()[3]
+				     + _padRowLayout->getPlaneExtent()[2])/2.;
 			phiMin = _padRowLayout->getPlaneExtent()[2] - phiBorder;
 			phiMax = _padRowLayout->getPlaneExtent()[3] + phiBorder;
 		    }
-- 
2.43.0


From c527f64f6f8e3cc814036c60a1966297f90cb7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 20/50] fix: TPCModuleImpl::setZPosition takes effect on the
 coordinates and extents of the module

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 1795bb5..539f52e 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1512,6 +1512,11 @@ namespace gear {
     {
       _zPosition = z;
       _zPositionIsSet = true;
+      // the conversion and the extents are different for the two half TPCs
+      checkLocalIsGlobal();
+      if ( (_momsCoordinateType != PadRowLayout2D::POLAR) 
+	   || (_padRowLayout->getCoordinateType() != PadRowLayout2D::CARTESIAN) ) // not implemented
+	convertLocalPlaneToGlobalPlaneExtend();
     }
 
     void TPCModuleImpl::setAngle(double angle)
-- 
2.43.0


From 07eb96ab47550980d047de56f5d10cf15025cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 21/50] fix: a new TPC module with polar pad layout in a
 cartesian TPC has cartesian extents

---
 src/gearimpl/TPCModuleImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index 539f52e..e6c4d22 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1198,6 +1198,11 @@ namespace gear {
 	  _zPositionIsSet = false;
 
 	  checkLocalIsGlobal();
+
+	  // the extents of a polar pad layout are not those in a cartesian TPC
+	  if ( (_momsCoordinateType == PadRowLayout2D::CARTESIAN) 
+	       && (_padRowLayout->getCoordinateType() == PadRowLayout2D::POLAR) )
+	    convertLocalPlaneToGlobalPlaneExtend();
     }
 
     TPCModuleImpl::TPCModuleImpl(const TPCModuleImpl &right)
-- 
2.43.0


From fcc1bf54319f69b812d0211d4379df4bc839c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 22/50] fix: TPC modules with pads at negative local angles
 find points inside their pads

---
 src/gearimpl/TPCModuleImpl.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/gearimpl/TPCModuleImpl.cc b/src/gearimpl/TPCModuleImpl.cc
index e6c4d22..0ffce3a 100644
--- a/src/gearimpl/TPCModuleImpl.cc
+++ b/src/gearimpl/TPCModuleImpl.cc
@@ -1293,6 +1293,19 @@ namespace gear {
 
     bool TPCModuleImpl::isInsidePad(double c0, double c1, int padIndex)  const{
 	Vector2D temp = globalToLocal(c0,c1);
+
+	switch (_padRowLayout->getCoordinateType())
+	{
+	    case PadRowLayout2D::CARTESIAN :
+		// don't do anything
+		break;
+	    case PadRowLayout2D::POLAR :
+		while ( temp[1] < _localModuleExtent[2] )
+		    temp[1] += 2*M_PI;
+		while ( temp[1] >= _localModuleExtent[2] + 2*M_PI )
+		    temp[1] -= 2*M_PI;
+	}
+
 	return _padRowLayout->isInsidePad(temp[0],temp[1],padIndex);
     }
 
@@ -1344,6 +1357,19 @@ namespace gear {
 
     double TPCModuleImpl::getDistanceToPad(double c0, double c1, int padIndex) const{
 	Vector2D localCoordinates = globalToLocal(c0,c1);
+
+	switch (_padRowLayout->getCoordinateType())
+	{
+	    case PadRowLayout2D::CARTESIAN :
+		// don't do anything
+		break;
+	    case PadRowLayout2D::POLAR :
+		while ( localCoordinates[1] < _localModuleExtent[2] )
+		    localCoordinates[1] += 2*M_PI;
+		while ( localCoordinates[1] >= _localModuleExtent[2] + 2*M_PI )
+		    localCoordinates[1] -= 2*M_PI;
+	}
+
 	return _padRowLayout->getDistanceToPad(localCoordinates[0],localCoordinates[1], padIndex);
 
     } 
-- 
2.43.0


From dde3dadccb8f1ca543649f7f186d7632f408cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 23/50] fix: storing the same object again in the manager does
 not delete it

---
 src/gearimpl/GearMgrImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/GearMgrImpl.cc b/src/gearimpl/GearMgrImpl.cc
index d7cb6a2..351f774 100644
--- a/src/gearimpl/GearMgrImpl.cc
+++ b/src/gearimpl/GearMgrImpl.cc
@@ -392,7 +392,8 @@ namespace gear{
 
     if( it != _map.end() ) {
       
-      delete it->second ;
+      if( it->second != parameters )   // don't delete what is stored again
+	delete it->second ;
       it->second = parameters ;
       
     } else {
@@ -406,7 +407,7 @@ namespace gear{
   
   void GearMgrImpl::setTPCParameters( TPCParameters* tpcParameters ) {
     
-    if(  _tpcParameters ) 
+    if(  _tpcParameters != tpcParameters )   // don't delete what is stored again
       delete _tpcParameters ;
 
     _tpcParameters = tpcParameters ;
-- 
2.43.0


From ac76b62a03ad2c46512094fdc47ca08c5a1dc5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 24/50] fix: the layout of tracker planes returns the ID that
 was set

---
 include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
index 5b473d2..ed8e6b1 100644
--- a/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
+++ b/include/gear/gearimpl/TrackerPlanesLayerLayoutImpl.h
@@ -384,7 +384,7 @@ class TrackerPlanesLayerLayoutImpl : public TrackerPlanesLayerLayout {
 	  virtual ~TrackerPlanesLayerLayoutImpl() { /* nop */; }
 		
           /** */
-          virtual int getID() const { return 0; }
+          virtual int getID() const { return ID; }
 
           /** */
           virtual void setID(int value) { ID = value; }
-- 
2.43.0


From 2114e3cc2f4d4035255ca1295849f229bb692d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 25/50] fix: disks at negative z of an FTD with any number of
 layers

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 6535cc9..52569d5 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -71,14 +71,14 @@ namespace gear
 }
 
 
-// Correct the index of the layer in order to return a value < 7
+// Correct the index of the layer in order to return a value < N, the number of stored layers
 // (layers symmetric in z)
 int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 {
 //FIXME: TO DEBUG!!
 	int correctedId = -1;
 	// Using the index of the vectors 0->2N-1
-	if( layerIndex > 6)
+	if( layerIndex >= getNLayers() )
 	{
 		correctedId = layerIndex-getNLayers();
 	}
@@ -91,7 +91,7 @@ int FTDLayerLayoutImpl::getEquivLayer(const int & layerIndex) const
 	{
 		std::cout << "The disk layer introduced is not in the right format. Use the description:\n " <<
 			"Z-Positives disks: 0,1,...,N-1\n " <<
-			"Z-negatives disks: 7,8,...,2N-1\n" << std::endl;
+			"Z-negatives disks: N,N+1,...,2N-1\n" << std::endl;
 	}
 
 	return correctedId;
-- 
2.43.0


From 3db72908101bb4688df659c2ff799cfd0ed75ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:19 +0000
Subject: [PATCH 26/50] fix: adding an FTD layer does not write outside of a
 vector

---
 src/gearimpl/FTDLayerLayoutImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gearimpl/FTDLayerLayoutImpl.cc b/src/gearimpl/FTDLayerLayoutImpl.cc
index 52569d5..c98be10 100644
--- a/src/gearimpl/FTDLayerLayoutImpl.cc
+++ b/src/gearimpl/FTDLayerLayoutImpl.cc
@@ -261,9 +261,9 @@ std::vector<vframe> FTDLayerLayoutImpl::getframe( const Layer & l )
 
 	std::vector<vframe> fr;
 	fr.reserve(3);
-	fr[0] = e1;
-	fr[1] = e2;
-	fr[2] = e3;
+	fr.push_back(e1);
+	fr.push_back(e2);
+	fr.push_back(e3);
 
 	return fr;
 }
-- 
2.43.0


From 0ba2ee304dfdabdb8a05f6fa306c8be64bdd3a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:11 +0000
Subject: [PATCH 27/50] fix: a rejected fill leaves no surfaces in the surface
 store

---
 src/gearsurf/MeasurementSurfaceStore.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gearsurf/MeasurementSurfaceStore.cc b/src/gearsurf/MeasurementSurfaceStore.cc
index 691c128..80fbf04 100644
--- a/src/gearsurf/MeasurementSurfaceStore.cc
+++ b/src/gearsurf/MeasurementSurfaceStore.cc
@@ -111,8 +111,14 @@ namespace gear{
       
       std::vector<MeasurementSurface*>::iterator it;
       
-      for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
-        this->addMeasurementSurface(*it);
+      try {
+        for (it = surface_list.begin(); it!=surface_list.end(); ++it) {
+          this->addMeasurementSurface(*it);
+        }
+      }
+      catch( ... ) {
+        _measurement_surface_map.clear() ; // a rejected fill does not leave some of its surfaces in the store
+        throw ;
       }
       
       _store_filled = true;
-- 
2.43.0


From f2c7e835af2cbab5a98116a5cc306d75f96f9029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:02 +0000
Subject: [PATCH 28/50] fix: the outer phi edges of a planar layer were those
 of the other volume (ladder instead of sensitive)

---
 src/gearimpl/ZPlanarLayerLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 2be0227..495e3e3 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -95,7 +95,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getStartOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
@@ -108,7 +108,7 @@ namespace gear{
   double ZPlanarLayerLayoutImpl::getEndOuterPhi( int layerIndex , bool sensitive ) const 
   {
     Layer l ;
-    if (sensitive) {
+    if (!sensitive) {
       l = _lVec.at( layerIndex ) ;
     }
     else {
-- 
2.43.0


From 965ff8ee19bb31810fbafd267be43c28623220c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 29/50] fix: points of a planar detector on the negative y-axis
 were taken to be at the opposite side

---
 src/gearimpl/ZPlanarParametersImpl.cc | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index ce5d268..c7058b2 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -831,22 +831,8 @@ namespace gear{
     //FG: this is the the angle with the negative y-axis 
     // see comment at the top !
 
-    // get phi of point in projection 2D
-    double pPhi = 0. ;
-    if( ( p[0] >= 0 ) && ( p[1] == 0 ) )
-      pPhi = -M_PI/2 ;
-    
-    if( ( p[0] < 0 ) && ( p[1] == 0 ) )
-      pPhi = M_PI/2 ;
-    
-    if( ( p[0] == 0 ) && ( p[1] < 0 ) ) 
-      pPhi = 0 ;
-    
-    if( ( p[0] != 0 ) && ( p[1] < 0 ) )
-      pPhi = atan( p[0] / p[1] ) + M_PI ;
-    
-    else
-      pPhi = atan( p[0] / p[1] ) ;
+    // get phi of point in projection 2D - measured from the y-axis in clockwise direction
+    double pPhi = atan2( p[0] , p[1] ) ;
     
     pPhi = correctPhiRange( pPhi ) ;  
     
-- 
2.43.0


From 3811f6475f1538b1554faddb9fc74c013c438447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 30/50] fix: ladders of a planar detector more than one turn
 away from the phi range were not found

---
 src/gearimpl/ZPlanarParametersImpl.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index c7058b2..5878e7c 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -814,12 +814,10 @@ namespace gear{
   
   double ZPlanarParametersImpl::correctPhiRange( double Phi ) const {
     
-    if( Phi > M_PI ) {
-      return ( Phi - 2 * M_PI ) ;
+    // phi may be several full turns away from the range
+    if( ( Phi > M_PI ) || ( Phi <= -M_PI ) ) {
+      Phi -= 2 * M_PI * ceil( ( Phi - M_PI ) / ( 2 * M_PI ) ) ;
     }
-    if( Phi <= -M_PI ) {
-      return ( Phi + 2 * M_PI ) ;
-    } 
     
     return Phi ;
 
-- 
2.43.0


From 5157e336eee9edf6451e692a45724959af2c8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 31/50] fix: points near the outer edge of a planar ladder with
 a large offset were not found to be inside

---
 src/gearimpl/ZPlanarParametersImpl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 5878e7c..9941533 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -1,5 +1,6 @@
 #include "gearimpl/ZPlanarParametersImpl.h"
 #include <math.h>
+#include <algorithm>
 #include <iostream>
 
 #define _EPSILON 0.0001
@@ -93,8 +94,9 @@ namespace gear{
       
       // find out delta phi between each ladder
       double deltaPhi = ( 2 * M_PI ) / _layer.getNLadders( possibleLayer ) ;
-      double startPhi = _layer.getStartInnerPhi( possibleLayer , sensitive ) ;
-      double endPhi = _layer.getEndInnerPhi( possibleLayer , sensitive ) ;
+      // range in phi covered by the first ladder - for large offsets it extends to the outer edges
+      double startPhi = std::min( _layer.getStartInnerPhi( possibleLayer , sensitive ) , _layer.getStartOuterPhi( possibleLayer , sensitive ) ) ;
+      double endPhi = std::max( _layer.getEndInnerPhi( possibleLayer , sensitive ) , _layer.getEndOuterPhi( possibleLayer , sensitive ) ) ;
 
       // go through all ladders/sensitive
       int nLadders = _layer.getNLadders( possibleLayer ) ;
-- 
2.43.0


From 5553d836fe172d58f81c01618d86d3f38934f250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 32/50] fix: the distance to the nearest planar ladder ignored
 the ladders of layers with one or two ladders, and those at larger angles

---
 src/gearimpl/ZPlanarParametersImpl.cc | 38 ++-------------------------
 1 file changed, 2 insertions(+), 36 deletions(-)

diff --git a/src/gearimpl/ZPlanarParametersImpl.cc b/src/gearimpl/ZPlanarParametersImpl.cc
index 9941533..72c07ae 100644
--- a/src/gearimpl/ZPlanarParametersImpl.cc
+++ b/src/gearimpl/ZPlanarParametersImpl.cc
@@ -2,6 +2,7 @@
 #include <math.h>
 #include <algorithm>
 #include <iostream>
+#include <limits>
 
 #define _EPSILON 0.0001
 
@@ -203,29 +204,9 @@ namespace gear{
       return origin ;
     }
     
-    // check if point is origin
-
-    if( origin.x() == p.x() &&  origin.y() == p.y() && origin.z() == p.z()  ) {
-
-       if( _layer.getNLayers() > 0 ){
-
- 	// simply use first ladder - distance d , phi0 , gap/2  :
-	 //fg: fixme: review definition of phi...
- 	return Vector3D( _layer.getLadderDistance(0) ,  -_layer.getInternalPhi0(0)  , _shellGap/2  , Vector3D::cylindrical ) ;
-       }
-
-       return origin ;
-    }
-
-    //fg:  FIXME: this code needs to be cleaned up and checked 
-    //  it can also probably be made a bit faster ...
-
-
-    double pPhi = getPhiPoint( p ) ;
-
     // this Point is solution
     Vector3D vPointPlane ;
-    double minDistance = 99999.99 ;
+    double minDistance = std::numeric_limits<double>::max() ;
 
     // go through all layers
     for ( int nearestLayer=0 ; nearestLayer < _layer.getNLayers() ; nearestLayer++ ) {
@@ -258,21 +239,6 @@ namespace gear{
 	double phi = _layer.getInternalPhi0( nearestLayer ) + i*deltaPhi ;
 	phi = correctPhiRange( phi ) ;
 
-	// check start and end phi for this layer
-	double sPhi = correctPhiRange( phi - deltaPhi ) ;
-	double ePhi = correctPhiRange( phi + deltaPhi ) ;
-			
-	// check if point is in range of ladder
-	bool isInRange = 
-	  ( ( sPhi <= pPhi )  && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi <= ePhi ) )
-	  ||( ( sPhi > ePhi ) && ( pPhi >= sPhi ) ) ;
-	
-	if ( !isInRange ) {
-	  
-	  continue ;
-	}
-	
 	// take normal vector of planes, Base, Side, Z and spacePoint
 //fg: ------- test vector3d ---------------------------
 // 	Vector3D nBase, nSide, nZ ;
-- 
2.43.0


From 49d12b5ee5d53aefb9ec5bc5ec537c8577f6aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:03 +0000
Subject: [PATCH 33/50] fix: the maximum radius of a planar layer was rounded
 to float, points in the outer corner were rejected

---
 src/gearimpl/ZPlanarLayerLayout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gearimpl/ZPlanarLayerLayout.cc b/src/gearimpl/ZPlanarLayerLayout.cc
index 495e3e3..042c45e 100644
--- a/src/gearimpl/ZPlanarLayerLayout.cc
+++ b/src/gearimpl/ZPlanarLayerLayout.cc
@@ -56,8 +56,8 @@ namespace gear{
       l = _sVec.at( layerIndex ) ;
     }
 
-    float d = l.Distance + l.Thickness ;
-    float w = l.Width / 2 + fabs( l.Offset ) ;
+    double d = l.Distance + l.Thickness ;
+    double w = l.Width / 2 + fabs( l.Offset ) ;
 
     double max = sqrt( d*d + w*w ) ;
 
-- 
2.43.0


From 3d321d6ff64440f4d96e99487227c584b8562bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:19 +0000
Subject: [PATCH 34/50] fix: FixedPadAngleDiskLayoutXML writes the pad number
 under the name it is read from

---
 src/gearxml/FixedPadAngleDiskLayoutXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/FixedPadAngleDiskLayoutXML.cc b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
index 44d6fd0..e52f54b 100644
--- a/src/gearxml/FixedPadAngleDiskLayoutXML.cc
+++ b/src/gearxml/FixedPadAngleDiskLayoutXML.cc
@@ -40,7 +40,7 @@ namespace gear {
     
     padRowLayout2DXML.SetDoubleAttribute("phiMax", (fixedPadLayout->getPlaneExtent())[3]);
     
-    padRowLayout2DXML.SetAttribute("nPadInRow",fixedPadLayout->getNPadsInRow());
+    padRowLayout2DXML.SetAttribute("nPadsInRow",fixedPadLayout->getNPadsInRow());
     
     return padRowLayout2DXML ;
   }
-- 
2.43.0


From 51ede53b325a55f1c8f18322ce2f329a5f5d5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:17 +0000
Subject: [PATCH 35/50] fix: RectangularPadRowLayoutXML writes every row of a
 layout with repeated rows

---
 src/gearxml/RectangularPadRowLayoutXML.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/gearxml/RectangularPadRowLayoutXML.cc b/src/gearxml/RectangularPadRowLayoutXML.cc
index 5f9f91a..3db4ff2 100644
--- a/src/gearxml/RectangularPadRowLayoutXML.cc
+++ b/src/gearxml/RectangularPadRowLayoutXML.cc
@@ -29,22 +29,12 @@ namespace gear {
     padRowLayout2DXML.SetDoubleAttribute( "xMax", rectangularPadLayout->getPlaneExtent()[1] );
     padRowLayout2DXML.SetDoubleAttribute( "yMin", rectangularPadLayout->getPlaneExtent()[2] );
 
-    int repeatRowCount =  rectangularPadLayout->getRepeatRowCount() ;
-
-    if( repeatRowCount > 1 )
-      padRowLayout2DXML.SetDoubleAttribute( "RepeatRows", repeatRowCount );
-
-
+    // all rows are written, also the ones created with repeatRows()
     const std::vector<unsigned>& rowNumbers = rectangularPadLayout->equalRowNumbers() ;
     int theRow = 0 ;
 
     int rowNum  = rowNumbers.size() ; 
     
-    if( repeatRowCount > 1  ) 
-      rowNum /=  repeatRowCount ;
-
-    
-    
     for(int i=0 ; i< rowNum ; ++i){
       
       TiXmlElement rowElement("row");    
-- 
2.43.0


From 02c2aefd112516368ba46b362f1cdf00a640a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:17 +0000
Subject: [PATCH 36/50] fix: VersatileDiskRowLayoutXML writes pad pitch, width
 and offset in mm and reads the pad width back

---
 src/gearxml/VersatileDiskRowLayoutXML.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gearxml/VersatileDiskRowLayoutXML.cc b/src/gearxml/VersatileDiskRowLayoutXML.cc
index 26a5efc..8ef4d9d 100644
--- a/src/gearxml/VersatileDiskRowLayoutXML.cc
+++ b/src/gearxml/VersatileDiskRowLayoutXML.cc
@@ -38,12 +38,11 @@ namespace gear {
 	TiXmlElement rowElement("row");
     
 	rowElement.SetAttribute("nPad", rowIter->getNPads() ) ;
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
-	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch() ) ; 
+	rowElement.SetDoubleAttribute("padPitch", rowIter->getPadPitch_mm() ) ; 
 	rowElement.SetDoubleAttribute("rowHeight", rowIter->getRowHeight() ) ; 
-	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth() ) ; 
+	rowElement.SetDoubleAttribute("padWidth", rowIter->getPadWidth_mm() ) ; 
 	rowElement.SetDoubleAttribute("padHeight", rowIter->getPadHeight() ) ;
-	rowElement.SetDoubleAttribute("offset", rowIter->getOffset() ) ;
+	rowElement.SetDoubleAttribute("offset", rowIter->getOffset_mm() ) ;
 
 	padRowLayout2DXML.InsertEndChild( rowElement ) ;	
     }
@@ -65,7 +64,7 @@ namespace gear {
 	  double padPitch  =  atof(  getXMLAttribute( xmlRow, "padPitch" ) .c_str() ) ;
 	  double rowHeight =  atof(  getXMLAttribute( xmlRow , "rowHeight" ) .c_str() ) ;
 
-	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidtht" , "0.0" ).c_str() ) ;
+	  double padWidth  = atof(  getOptionalXMLAttribute( xmlRow , "padWidth" , "0.0" ).c_str() ) ;
 	  double padHeight = atof(  getOptionalXMLAttribute( xmlRow , "padHeight" , "0.0" ).c_str() ) ;
 	  double offset    = atof(  getOptionalXMLAttribute( xmlRow , "offset"    , "0.0" ).c_str() ) ;
 	  int    repeat    = atoi(  getOptionalXMLAttribute( xmlRow , "repeat"    , "1" ).c_str() ) ;
-- 
2.43.0


From 1b365f07709c4562b2dc113c7d98e6562aea09d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 37/50] fix: TPCModuleXML reads the readout frequency as a
 floating point number

---
 src/gearxml/TPCModuleXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/TPCModuleXML.cc b/src/gearxml/TPCModuleXML.cc
index 2ff34ba..b9e9061 100644
--- a/src/gearxml/TPCModuleXML.cc
+++ b/src/gearxml/TPCModuleXML.cc
@@ -99,7 +99,7 @@ TPCModule* TPCModuleXML::fromXML( const TiXmlElement* moduleElement ,
     {
 	throw ParseException("TPCModuleXML: No readoutFrequency in TPCModule" ) ;
     }
-    double 	readoutFrequency = atoi( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
+    double 	readoutFrequency = atof( getXMLAttribute( readoutFrequencyElement , "value" ).c_str() );
     
     // get the pad layout
     const TiXmlElement* padLayoutElement = moduleElement->FirstChildElement( "PadRowLayout2D" );
-- 
2.43.0


From bc7d40823b65deaf317e93097928acc60bee3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 38/50] fix: TPCParametersXML reads the drift velocity it has
 written

---
 src/gearxml/TPCParametersXML.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/TPCParametersXML.cc b/src/gearxml/TPCParametersXML.cc
index 9f02c92..e0cc679 100644
--- a/src/gearxml/TPCParametersXML.cc
+++ b/src/gearxml/TPCParametersXML.cc
@@ -143,6 +143,9 @@ namespace gear {
         // create the modular TPC
         modularTPC = new TPCParametersImpl( maxDriftLength ,coordinateType ) ;
 
+	// the (deprecated) drift velocity is optional
+	modularTPC->setDriftVelocity( atof( getOptionalChildElementValue( xmlElement, "driftVelocity" , "0" ).c_str() ) ) ;
+
 	// try to find a default module
 //	const TiXmlElement* defaultModuleElement = xmlElement->FirstChildElement("default");
 //	// no need to check whether the default module was found, the module parser can run without
-- 
2.43.0


From 46dff482f5dc97723f8a4d7956fd6343d2f4b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:02 +0000
Subject: [PATCH 39/50] fix: TrackerPlanesParametersXML writes the layers with
 their ID and info where they are read from

---
 src/gearxml/TrackerPlanesParametersXML.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index 9aca3ba..a6dced5 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -60,6 +60,9 @@ namespace gear {
       TrackerPlanesLayerImpl* layer = const_cast<gear::TrackerPlanesLayerImpl*  > (trackerplanesLayerLayout.getLayer(il));
       if( layer == 0 ) continue;
 
+      xmlLayer.SetAttribute( "ID" , layer->getID() ) ;
+      xmlLayer.SetAttribute( "info" , layer->getInfo() ) ;
+
       TrackerPlanesMaterialLayerImplVec& material = layer->getMaterialLayerVec();
 
       TrackerPlanesSensitiveLayerImplVec& sensitive = layer->getSensitiveLayerVec();
@@ -111,10 +114,12 @@ namespace gear {
            xmlLayer.InsertEndChild( xmlSensor ) ;
        }
 
-      det.InsertEndChild( xmlLayer ) ;
+      layers.InsertEndChild( xmlLayer ) ;
     }
 
     // Assemble Detector
+    det.InsertEndChild( layers ) ;
+
     GearParametersXML::getXMLForParameters( &det , &parameters ) ;
 
     return det ;
-- 
2.43.0


From 3c8ec0ae3d123529d4921f7dc5fa6f099929e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 40/50] fix: SiPlanesParametersXML writes all rotations and
 resolutions of the sensitive planes

---
 src/gearxml/SiPlanesParametersXML.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index bc5730f..f8ebbd5 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -133,6 +133,9 @@ namespace gear {
       sens.SetDoubleAttribute( "positionX" , siplanesLayers.getSensitivePositionX( i ) ) ;
       sens.SetDoubleAttribute( "positionY" , siplanesLayers.getSensitivePositionY( i ) ) ;
       sens.SetDoubleAttribute( "positionZ" , siplanesLayers.getSensitivePositionZ( i ) ) ;
+      sens.SetDoubleAttribute( "rotationXY" , siplanesLayers.getSensitiveRotationXY( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZX" , siplanesLayers.getSensitiveRotationZX( i ) ) ;
+      sens.SetDoubleAttribute( "rotationZY" , siplanesLayers.getSensitiveRotationZY( i ) ) ;
       sens.SetDoubleAttribute( "sizeX" , siplanesLayers.getSensitiveSizeX( i ) ) ;
       sens.SetDoubleAttribute( "sizeY" , siplanesLayers.getSensitiveSizeY( i ) ) ;
       sens.SetDoubleAttribute( "thickness" , siplanesLayers.getSensitiveThickness( i ) ) ;
@@ -141,6 +144,8 @@ namespace gear {
       sens.SetDoubleAttribute( "pitchX" , siplanesLayers.getSensitivePitchX( i ) ) ;
       sens.SetDoubleAttribute( "pitchY" , siplanesLayers.getSensitivePitchY( i ) ) ;
       sens.SetDoubleAttribute( "resolution" , siplanesLayers.getSensitiveResolution( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionX" , siplanesLayers.getSensitiveResolutionX( i ) ) ;
+      sens.SetDoubleAttribute( "resolutionY" , siplanesLayers.getSensitiveResolutionY( i ) ) ;
       sens.SetDoubleAttribute( "rotation1" , siplanesLayers.getSensitiveRotation1( i ) ) ;
       sens.SetDoubleAttribute( "rotation2" , siplanesLayers.getSensitiveRotation2( i ) ) ;
       sens.SetDoubleAttribute( "rotation3" , siplanesLayers.getSensitiveRotation3( i ) ) ;
-- 
2.43.0


From b77e35fcded92e262fa0f555b0f733e628ad77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 41/50] fix: doubles are written with the digits needed to read
 the same number back

---
 src/gearxml/tinyxml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxml.cc b/src/gearxml/tinyxml.cc
index 0217409..e21ce1f 100644
--- a/src/gearxml/tinyxml.cc
+++ b/src/gearxml/tinyxml.cc
@@ -738,7 +738,7 @@ void TiXmlElement::SetAttribute( const char * name, int val )
 void TiXmlElement::SetDoubleAttribute( const char * name, double val )
 {	
 	char buf[256];
-	sprintf( buf, "%.9e", val );
+	sprintf( buf, "%.16e", val );
 	SetAttribute( name, buf );
 }
 
-- 
2.43.0


From e439b6c2dbbf84211eab7473cd2a814c79f98c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 42/50] fix: missing elements in a detector description are
 reported with a ParseException

---
 src/gearxml/FTDParametersXML.cc           | 3 +++
 src/gearxml/SiPlanesParametersXML.cc      | 6 ++++++
 src/gearxml/TrackerPlanesParametersXML.cc | 3 +++
 src/gearxml/XMLHandlerMgr.cc              | 6 +++---
 src/gearxml/ZPlanarParametersXML.cc       | 3 +++
 5 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/gearxml/FTDParametersXML.cc b/src/gearxml/FTDParametersXML.cc
index 9d4efcc..4383a81 100644
--- a/src/gearxml/FTDParametersXML.cc
+++ b/src/gearxml/FTDParametersXML.cc
@@ -104,6 +104,9 @@ namespace gear
 		
 		// layers
 		const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+
+		if( xmlLayers == 0 )
+		  throw ParseException( "FTDParametersXML::fromXML missing element \"layers\" in element <detector/> " ) ;
 		const TiXmlNode* xmlLayer = 0 ;
 		
 		while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) 
diff --git a/src/gearxml/SiPlanesParametersXML.cc b/src/gearxml/SiPlanesParametersXML.cc
index f8ebbd5..ff0bf64 100644
--- a/src/gearxml/SiPlanesParametersXML.cc
+++ b/src/gearxml/SiPlanesParametersXML.cc
@@ -207,6 +207,9 @@ namespace gear {
 
     if (intType == SiPlanesParameters::TelescopeWithDUT) {
       const TiXmlNode* xmlDUT = xmlElement->FirstChildElement( "dut" ) ;
+
+      if( xmlDUT == 0 )
+        throw ParseException( "SiPlanesParametersXML::fromXML missing element \"dut\" in element <detector/> " ) ;
       const TiXmlNode* xmlDUTLad = xmlDUT->FirstChildElement( "dut_ladder" ) ;
       const TiXmlNode* xmlDUTSen = xmlDUT->FirstChildElement( "dut_sensitive" ) ;
       
@@ -243,6 +246,9 @@ namespace gear {
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
+    if( xmlLayers == 0 )
+      throw ParseException( "SiPlanesParametersXML::fromXML missing element \"layers\" in element <detector/> " ) ;
+
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
diff --git a/src/gearxml/TrackerPlanesParametersXML.cc b/src/gearxml/TrackerPlanesParametersXML.cc
index a6dced5..8f6f3f6 100644
--- a/src/gearxml/TrackerPlanesParametersXML.cc
+++ b/src/gearxml/TrackerPlanesParametersXML.cc
@@ -145,6 +145,9 @@ namespace gear {
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
 
+    if( xmlLayers == 0 )
+      throw ParseException( "TrackerPlanesParametersXML::fromXML missing element \"layers\" in element <detector/> " ) ;
+
     const TiXmlNode* xmlLayer = 0 ;
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
 
diff --git a/src/gearxml/XMLHandlerMgr.cc b/src/gearxml/XMLHandlerMgr.cc
index 710c9c1..1a587ad 100644
--- a/src/gearxml/XMLHandlerMgr.cc
+++ b/src/gearxml/XMLHandlerMgr.cc
@@ -88,7 +88,7 @@ namespace gear{
 
   std::string getXMLAttribute(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
        std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -129,7 +129,7 @@ namespace gear{
 
   std::string getChildElementValue(const TiXmlNode* node , const std::string& name ) {
     
-    const TiXmlElement* el = node->ToElement() ;
+    const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
     if( el == 0 ) {
         std::stringstream str ;
       str  << "XMLParser::getAttribute [" << name << "] not an XMLElement " ;
@@ -157,7 +157,7 @@ namespace gear{
 					  const std::string& defaultValue)
   {
       
-      const TiXmlElement* el = node->ToElement() ;
+      const TiXmlElement* el = ( node != 0 ? node->ToElement() : 0 ) ;
       if( el == 0 ) 
 	  throw ParseException("XMLParser::getAttribute not an XMLElement " ) ;
 	
diff --git a/src/gearxml/ZPlanarParametersXML.cc b/src/gearxml/ZPlanarParametersXML.cc
index 3f0d660..2a3b6cf 100644
--- a/src/gearxml/ZPlanarParametersXML.cc
+++ b/src/gearxml/ZPlanarParametersXML.cc
@@ -167,6 +167,9 @@ namespace gear {
 
     // layers
     const TiXmlNode* xmlLayers = xmlElement->FirstChildElement( "layers" ) ;
+
+    if( xmlLayers == 0 )
+      throw ParseException( "ZPlanarParametersXML::fromXML missing element \"layers\" in element <detector/> " ) ;
     const TiXmlNode* xmlLayer = 0 ;
     
     while( ( xmlLayer = xmlLayers->IterateChildren( "layer" , xmlLayer ) ) != 0 ) {
-- 
2.43.0


From 0f2ea047a23a5d814400fdced24da76b09d97363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 43/50] fix: GearXML::createGearMgr keeps no partially filled
 manager after a parse error

---
 src/gearxml/GearXML.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/gearxml/GearXML.cc b/src/gearxml/GearXML.cc
index d2cc492..cf2cda2 100644
--- a/src/gearxml/GearXML.cc
+++ b/src/gearxml/GearXML.cc
@@ -29,6 +29,7 @@
 
 //#include <algorithm>
 #include <sstream>
+#include <memory>
 #include <iostream>
 #include <dlfcn.h>
 
@@ -476,12 +477,11 @@ namespace gear{
       
       return _gearMgr ;
       
-    } else {
-      
-      _gearMgr = new GearMgrImpl ;
-
     }
     
+    // the manager is kept only once the complete file has been read
+    std::unique_ptr<GearMgrImpl> gearMgr( new GearMgrImpl ) ;
+    
     
     // parse the XML file
     
@@ -515,7 +515,7 @@ namespace gear{
     TiXmlNode* global =  root->FirstChild("global") ;
     if( global != 0 ){
       std::string detName  =  getXMLAttribute( global, "detectorName" )  ;
-      _gearMgr->setDetectorName( detName  ) ;
+      gearMgr->setDetectorName( detName  ) ;
     }    
     
     TiXmlNode* detectors = root->FirstChild("detectors")  ;
@@ -528,7 +528,7 @@ namespace gear{
     TiXmlNode* field = root->FirstChild("BField")  ;
     if( field != 0 ){
       ConstantBFieldXML handler ;
-      handler.fromXML( field->ToElement() , _gearMgr ) ; 
+      handler.fromXML( field->ToElement() , gearMgr.get() ) ; 
     }
 
 //-----GDML File ---------------
@@ -562,8 +562,8 @@ namespace gear{
 	GearPointProperties*    tgeopoint = mProp->getGearPointProperties() ;
 	GearDistanceProperties* tgeodist  = mProp->getGearDistanceProperties() ;
 	
-	_gearMgr->setPointProperties( tgeopoint );
-	_gearMgr->setDistanceProperties( tgeodist );
+	gearMgr->setPointProperties( tgeopoint );
+	gearMgr->setDistanceProperties( tgeodist );
 	
       } else {
 	
@@ -615,7 +615,7 @@ namespace gear{
       
       //       GearParameters* gp = 
 
-      handler->fromXML( det->ToElement() , _gearMgr ) ; 
+      handler->fromXML( det->ToElement() , gearMgr.get() ) ; 
       
     }
     
@@ -631,7 +631,7 @@ namespace gear{
       TiXmlNode* mat = 0 ;
       while( ( mat = materials->IterateChildren( "material", mat ) )  != 0  ){
 
-	handler.fromXML( mat->ToElement() , _gearMgr ) ; 
+	handler.fromXML( mat->ToElement() , gearMgr.get() ) ; 
       }
 
     }
@@ -641,6 +641,8 @@ namespace gear{
 
 
 
+    _gearMgr = gearMgr.release() ;
+
     return _gearMgr ;
   }
   
-- 
2.43.0


From e1e73138e7e482597ad9058ff97ea45f2a21a917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 44/50] fix: MergeXML dereferenced a null child when merging a
 named element without children

---
 src/gearxml/MergeXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index f25b50a..7ff7c46 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -162,7 +162,7 @@ namespace gear{
 	  }
  
 	  // start mergeNode for subordniate nodes
-	  if ( hasAttribute(loopNode) && !((loopNode->FirstChild())->ToText()) ) {
+	  if ( hasAttribute(loopNode) && loopNode->FirstChild() && !((loopNode->FirstChild())->ToText()) ) {
 	    mergeNode( loopNode, domChildNode ) ;
 	  }
 	    //else {
-- 
2.43.0


From d2a9e0cad47a4324ec5288f8139eeeb7a1f968ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 45/50] fix: MergeXML handles files without global, field or
 materials and keeps what only one file has

---
 src/gearxml/MergeXML.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gearxml/MergeXML.cc b/src/gearxml/MergeXML.cc
index 7ff7c46..7192422 100644
--- a/src/gearxml/MergeXML.cc
+++ b/src/gearxml/MergeXML.cc
@@ -73,10 +73,18 @@ namespace gear{
     TiXmlNode* nodeDetectorsMerged = nodeGearMerged->FirstChild( detectors ) ;
     TiXmlNode* nodeMaterialsMerged = nodeGearMerged->FirstChild( materials ) ;
     
+    // parts that only the recessive file has are copied as a whole
+    const std::string parts[] = { global, "BField", "GDMLFile", materials } ;
+    for ( unsigned i = 0 ; i < sizeof( parts ) / sizeof( parts[0] ) ; ++i ) {
+      if ( nodeGear1->FirstChild( parts[i] ) && ! nodeGearMerged->FirstChild( parts[i] ) ) {
+	nodeGearMerged->InsertEndChild( *nodeGear1->FirstChild( parts[i] ) ) ;
+      }
+    }
+
     // loop through all nodes
-    mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
+    if ( nodeGlobal1 && nodeGlobalMerged ) mergeNode( nodeGlobal1, nodeGlobalMerged ) ;
     mergeNode( nodeDetectors1, nodeDetectorsMerged ) ;
-    mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
+    if ( nodeMaterials1 && nodeMaterialsMerged ) mergeNode( nodeMaterials1, nodeMaterialsMerged ) ;
     
     // save file
     return _fileMerged->SaveFile( fileName ) ;
-- 
2.43.0


From 5aee388791027b4344df2ff8b1bc7a4d48dbc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 46/50] fix: lists of doubles are written with the digits
 needed to read the same numbers back

---
 src/gearxml/GearParametersXML.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gearxml/GearParametersXML.cc b/src/gearxml/GearParametersXML.cc
index e04a9a8..333d887 100644
--- a/src/gearxml/GearParametersXML.cc
+++ b/src/gearxml/GearParametersXML.cc
@@ -177,7 +177,7 @@ namespace gear {
 
       std::stringstream str ;
       // maintain the same level of precision as for single double values
-      str << std::scientific << std::setprecision(9) ;
+      str << std::scientific << std::setprecision(16) ;
       for(unsigned int j=0 ; j < vec.size() ; ++j ){
 	if( j!=0 ) 
 	  str << " " ; 
-- 
2.43.0


From 8e5de863b41b5ba46920856fe335fe6f9b715aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 47/50] fix: reading an unterminated attribute, text or comment
 ran past the end of the XML file

---
 src/gearxml/tinyxmlparser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 311ae5a..5c46b5f 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -621,7 +621,8 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	return p + strlen( endTag );
+	// The end tag may be missing: never step over the end of the text.
+	return ( p && *p ) ? p + strlen( endTag ) : 0;
 }
 
 #ifdef TIXML_USE_STL
-- 
2.43.0


From 2eb610cafa51f0200a7cddc64a411d925ff31dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 48/50] fix: an XML file that ends before an element is closed
 is an error

---
 src/gearxml/tinyxmlparser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 5c46b5f..1becf59 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1083,7 +1083,10 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			++p;
 			p = ReadValue( p, data, encoding );		// Note this is an Element method, and will set the error if one happens.
 			if ( !p || !*p )
+			{
+				if ( document ) document->SetError( TIXML_ERROR_READING_END_TAG, p, data, encoding );
 				return 0;
+			}
 
 			// We should find the end tag now
 			if ( StringEqual( p, endTag.c_str(), false, encoding ) )
-- 
2.43.0


From 28c86c2cb5e848fe15dbdc05deb02e2bdaff2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:59 +0000
Subject: [PATCH 49/50] fix: a repeated attribute stops the reading of an XML
 file with an error instead of silently

---
 src/gearxml/tinyxmlparser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gearxml/tinyxmlparser.cc b/src/gearxml/tinyxmlparser.cc
index 1becf59..9317044 100644
--- a/src/gearxml/tinyxmlparser.cc
+++ b/src/gearxml/tinyxmlparser.cc
@@ -1127,6 +1127,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			{
 				node->SetValue( attrib->Value() );
 				delete attrib;
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, ppErr, data, encoding );
 				return 0;
 			}
 
-- 
2.43.0


From 89da7f978277f3298f933c85ee0b682a8ed12322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 50/50] fix: a multi-byte character cut off at the end of an
 XML file was read beyond its end

---
 include/gear/gearxml/tinyxml.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gear/gearxml/tinyxml.h b/include/gear/gearxml/tinyxml.h
index 2882a83..31f60ec 100644
--- a/include/gear/gearxml/tinyxml.h
+++ b/include/gear/gearxml/tinyxml.h
@@ -292,7 +292,8 @@ protected:
 		else if ( *length )
 		{
 			strncpy( _value, p, *length );
-			return p + (*length);
+			// the text may end within the character
+			return p + strnlen( p, *length );
 		}
 		else
 		{
-- 
2.43.0

