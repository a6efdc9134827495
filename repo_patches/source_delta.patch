From 9cbb09fc12f0510ffbf42aca87ed03518c7cc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 01/44] fix: read the resampling function of every channel, not
 12 times the first

---
 msat/hrit/MSG_data_GeometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
-- 
2.43.0


From 9ab3f567e202252399e3397b69e6ddb20f00a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 02/44] fix: landmark observation spin rate is at offset 58 of
 its record

---
 msat/hrit/MSG_data_NavigExtrResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
-- 
2.43.0


From cb5aa9ac7ee60ba4b8cc18b105c156b3a6c44b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 03/44] fix: black body calibration constants are consecutive
 4-byte reals

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
-- 
2.43.0


From 0f1646921f387b2a5ecea628fe65c9a18c882d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 04/44] fix: read the reserved bytes of the HKTM parameters

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 7a7baa8..8ff20eb 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -239,6 +239,7 @@ size_t MSG_HKTMParameters::read_from( unsigned const char_1 *buff)
   (void) TimeS9Packet.read_from(buff+54);
   (void) TimeSYPacket.read_from(buff+60);
   (void) TimePSPacket.read_from(buff+66);
+  memcpy(WSPReserved, buff+72, 3408);
   return 3480; // ?? 498
 }
 
-- 
2.43.0


From 48c66b91949c1ba4b2f85a783a904a062f891c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 05/44] fix: decode the 42 12-bit DCR values from their own
 place in the record

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 10 ++++++++--
 msat/hrit/MSG_data_RadiometricProc.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..791e923 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,7 +361,13 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  // 42 consecutive 12-bit values
+  for (int i = 0; i < 42; i ++)
+  {
+    unsigned const char_1 *b = buff+position+(i*12)/8;
+    DCRValues[i].Value = (i % 2) ? ((b[0] & 0x0f) << 8) | b[1]
+                                 : (b[0] << 4) | (b[1] >> 4);
+  }
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
@@ -442,7 +448,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_BlackBodyDataUsed &b )
   for (int i = 0; i < 15; i ++)
     os << "PU Bias " << std::setw(2) << std::setfill('0') << i+1
        << "         : " << b.PUBias[i] << std::endl;
-  for (int i = 0; i < 12; i ++)
+  for (int i = 0; i < 42; i ++)
     os << "DCR Values " << std::setw(2) << std::setfill('0') << i+1
        << "       : "
        << std::setw(3) << std::setfill('0') << std::hex << b.DCRValues[i].Value
diff --git a/msat/hrit/MSG_data_RadiometricProc.h b/msat/hrit/MSG_data_RadiometricProc.h
index 72af7b7..9f3c204 100644
--- a/msat/hrit/MSG_data_RadiometricProc.h
+++ b/msat/hrit/MSG_data_RadiometricProc.h
@@ -131,7 +131,7 @@ class MSG_BlackBodyDataUsed {
     uint_2                               PUGain[42];
     uint_2                               PUOffset[27];
     uint_2                               PUBias[15];
-    t_MSG_DCR_Value                      DCRValues[12];
+    t_MSG_DCR_Value                      DCRValues[42];
     t_enum_MSG_DeepSpace_Window_Position XDeepSpaceWindowPosition;
     uint_2                               FCUNominalColdFocalPlaneTemp;
     uint_2                               FCURedundantColdFocalPlaneTemp;
-- 
2.43.0


From eedc322aa7efb35ed3d94d8f5f73a4895e0da559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/44] fix: refuse header records whose length leads outside
 the header

A record length of 0 made the header walk loop for ever, a length beyond the
end of the header made it run over unrelated memory, and errors called throw;
without an active exception, which terminates the process.
---
 msat/hrit/MSG_header.cpp | 72 +++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..7d7b448 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -28,6 +28,8 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <memory>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -74,50 +76,47 @@ MSG_header::~MSG_header( )
 void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
-  unsigned char_1 *hbuff;
 
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
   {
-    std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Primary Header");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
-    std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("First header type value is not primary");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("Primary Header Length mismatch");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+    throw std::runtime_error("Total header length is shorter than the Primary Header");
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
-  hbuff = new unsigned char_1[hsize];
-  if (!hbuff)
-  {
-    std::cerr << "Memory allocation error in MSG_header." << std::endl
-              << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
-  }
-  in.read((char_1 *) hbuff, hsize);
+  std::unique_ptr<unsigned char_1[]> hbuff(new unsigned char_1[hsize]);
+  in.read((char_1 *) hbuff.get( ), hsize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Header body");
   }
-  unsigned char_1 *pnt = hbuff;
+  unsigned char_1 *pnt = hbuff.get( );
   size_t left = hsize;
   size_t hunk_size = 0;
   size_t hqlen = 0;
   while (left)
   {
+    // Every header record starts with its type and its total length
+    if (left < 3)
+      throw std::runtime_error("Truncated header record");
+    if (get_ui2(pnt+1) < 3 || get_ui2(pnt+1) > left)
+      throw std::runtime_error("Header record length is invalid");
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -125,8 +124,10 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Structure Header mismatch");
         }
+        delete image_structure;
+        image_structure = 0;
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
         pnt = pnt + MSG_IMAGE_STRUCTURE_LEN;
@@ -137,8 +138,10 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Navigation Header mismatch");
         }
+        delete image_navigation;
+        image_navigation = 0;
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
         pnt = pnt + MSG_IMAGE_NAVIGATION_LEN;
@@ -146,6 +149,8 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_IMAGE_DATA_FUNCTION:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete image_data_function;
+        image_data_function = 0;
         image_data_function = new MSG_header_image_datafunc;
         image_data_function->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -156,8 +161,10 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Annotation Header mismatch");
         }
+        delete annotation;
+        annotation = 0;
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
         pnt = pnt + MSG_ANNOTATION_LEN;
@@ -168,8 +175,10 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Timestamp Header mismatch");
         }
+        delete timestamp;
+        timestamp = 0;
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
         pnt = pnt + MSG_TIMESTAMP_LEN;
@@ -177,6 +186,8 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_ANCILLARY_TEXT:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete ancillary_text;
+        ancillary_text = 0;
         ancillary_text = new MSG_header_ancillary_text;
         ancillary_text->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -187,8 +198,10 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Key Header mismatch");
         }
+        delete key;
+        key = 0;
         key = new MSG_header_key;
         key->read_from(pnt);
         pnt = pnt + MSG_KEY_LEN;
@@ -199,28 +212,35 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Segment Id Header mismatch");
         }
+        delete segment_id;
+        segment_id = 0;
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
         pnt = pnt + MSG_SEGMENT_ID_LEN;
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        hqlen = get_ui2(pnt+1);
+        if (!image_structure)
+          throw std::runtime_error("Segment Line Quality Header without Image Structure Header");
+        if (hqlen < 3 + (size_t) image_structure->number_of_lines * MSG_SEGMENT_QUALITY_RECORD_LEN)
+          throw std::runtime_error("Segment Line Quality Header is too short for the number of lines");
+        delete segment_quality;
+        segment_quality = 0;
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
-        hqlen = get_ui2(pnt+1);
         pnt = pnt + hqlen;
         left = left - hqlen;
         break;
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("Unknown header type");
         break;
       }
    }
-   delete [ ] hbuff;
    return;
 }
 
-- 
2.43.0


From 7839a0770adee83ae6c1c5c9e93f68844ad88b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 07/44] fix: ancillary text and data definition records with an
 invalid length

The length check could not fail for lengths below 3 (unsigned arithmetic) and
called throw; without an active exception; the text was not terminated.
---
 msat/hrit/MSG_header_ancillary_text.cpp | 20 +++++++-------------
 msat/hrit/MSG_header_image_datafunc.cpp | 15 +++------------
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..fbfc77c 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
 
@@ -51,21 +52,14 @@ MSG_header_ancillary_text::~MSG_header_ancillary_text( )
 
 void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
 {
+  if (get_ui2(buff+1) <= 3)
+    throw std::runtime_error("Ancillary Text Header length invalid");
   size_t h_length = (size_t) get_ui2(buff+1) - 3;
-  if (h_length <= 0)
-  {
-    std::cerr << "Error: Data Function Header length invalid." << std::endl;
-    std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
-  }
-  ancillary_text = new char_1[h_length];
-  if (!ancillary_text)
-  {
-    std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
-    std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
-  }
+  delete [ ] ancillary_text;
+  ancillary_text = 0;
+  ancillary_text = new char_1[h_length+1];
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..86d4557 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <cstring>
+#include <stdexcept>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
 MSG_header_image_datafunc::MSG_header_image_datafunc( )
@@ -44,20 +45,10 @@ MSG_header_image_datafunc::~MSG_header_image_datafunc( ) { }
 
 void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
 {
+  if (get_ui2(buff+1) < 3)
+    throw std::runtime_error("Data Function Header length invalid");
   size_t h_length = (size_t) get_ui2(buff+1) - 2;
-  if (h_length <= 0)
-  {
-    std::cerr << "Error: Data Function Header length invalid." << std::endl;
-    std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
-  }
   char_1 *tmpchar = new char_1[h_length];
-  if (!tmpchar)
-  {
-    std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
-    std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
-  }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
   data_definition_block = tmpchar;
-- 
2.43.0


From d1ef36d494095dbf3fbb0516e774a90eefdc2618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 08/44] fix: parse the projection name inside the navigation
 record

POLAR(plane,longitude) always dereferenced a null pointer, and the 32 byte
name was searched past its end when it was not terminated.
---
 msat/hrit/MSG_header_image_navig.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..4e18488 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -35,10 +35,17 @@
 MSG_header_image_navig::MSG_header_image_navig( )
 {
   satellite_h = 42164.0;
+  subsatellite_longitude = 0.0;
+  projection_plane = 0.0;
+  projection_longitude = 0.0;
 }
 
 MSG_header_image_navig::MSG_header_image_navig( unsigned const char_1 *buff )
 {
+  satellite_h = 42164.0;
+  subsatellite_longitude = 0.0;
+  projection_plane = 0.0;
+  projection_longitude = 0.0;
   read_from(buff);
 }
 
@@ -46,8 +53,9 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -69,11 +77,9 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     char_1 *tmp;
     projection_name[5] = 0;
     pname = projection_name;
-    tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    tmp = strchr(projection_name+6, ',');
+    if (tmp != NULL) sscanf(tmp+1, "%f", &projection_longitude);
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From 122b4bf6e18fb557a7860931894d4d62ceb6214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 09/44] fix: number of pixels of images of more than 2^31
 pixels

---
 msat/hrit/MSG_header_image_struct.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_struct.cpp b/msat/hrit/MSG_header_image_struct.cpp
index 9097f13..6fa8ec9 100644
--- a/msat/hrit/MSG_header_image_struct.cpp
+++ b/msat/hrit/MSG_header_image_struct.cpp
@@ -46,7 +46,7 @@ void MSG_header_image_struct::read_from( unsigned const char_1 *buff )
   number_of_columns         = get_ui2(buff+4);
   number_of_lines           = get_ui2(buff+6);
   compression_flag          = (t_enum_MSG_image_compression) buff[8];
-  image_pixels              = number_of_columns * number_of_lines;
+  image_pixels              = (uint_8) number_of_columns * number_of_lines;
   image_size                = (image_pixels*number_of_bits_per_pixel) / 8;
   if ((image_pixels*number_of_bits_per_pixel) % 8) image_size ++;
   return;
-- 
2.43.0


From 694ad89138fb7941b4905d94cd6abad5cda4f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 10/44] fix: refuse data fields that are shorter than the
 records they hold

---
 msat/hrit/MSG_data.cpp | 77 ++++++++++++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..5f018c5 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -29,6 +29,8 @@
 
 #include <string>
 #include <fstream>
+#include <memory>
+#include <stdexcept>
 #include <msat/hrit/MSG_data.h>
 
 std::ostream& operator<< ( std::ostream& os, MSG_data_level_15_header &h )
@@ -66,6 +68,13 @@ MSG_data::MSG_data( )
 
 MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
 {
+  key_message  = 0;
+  gts_message  = 0;
+  text_message = 0;
+  prologue     = 0;
+  epilogue     = 0;
+  image        = 0;
+  sdsprologue  = 0;
   read_from(in, header);
 }
 
@@ -84,22 +93,33 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 {
   size_t dsize;
   size_t dpos;
+  std::unique_ptr<unsigned char_1[]> dfield;
   unsigned char_1 *dbuff = 0;
   unsigned char_1 *dpnt = 0;
 
   typecode = header.f_typecode;
+  if (typecode == MSG_FILE_IMAGE_DATA && !header.image_structure)
+    throw std::runtime_error("Image data without Image Structure Header");
+  if (typecode == MSG_FILE_IMAGE_DATA && !header.segment_id &&
+      header.image_structure->compression_flag != MSG_NO_COMPRESSION)
+    throw std::runtime_error("Compressed image data without Segment Id Header");
+  if ((typecode == MSG_FILE_GTS_MESSAGE ||
+       typecode == MSG_FILE_REPEAT_CYCLE_PROLOGUE ||
+       typecode == MSG_FILE_REPEAT_CYCLE_EPILOGUE ||
+       typecode == MSG_FILE_BINARY_MESSAGE) && !header.annotation)
+    throw std::runtime_error("Data field without Annotation Header");
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
       image = new MSG_data_image;
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
@@ -124,12 +144,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_GTS_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
@@ -145,12 +165,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ALPHANUMERIC_TEXT:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
@@ -161,12 +181,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
@@ -176,16 +196,20 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
       dsize = header.data_field_length / 8;
 
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
+        if (dsize < MSG_SATELLITE_STATUS_LEN + MSG_IMAGE_ACQUISITION_LEN +
+                    MSG_CELESTIAL_EVENTS_LEN + MSG_IMAGE_DESCRIPTION_LEN +
+                    MSG_DATA_RADIOMETRIC_PROC_LEN + MSG_GEOMETRIC_PROCESSING_LEN)
+          throw std::runtime_error("Image prologue data field is too short");
 
         prologue = new MSG_data_level_15_header;
 
@@ -232,16 +256,20 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
+        if (dsize < 1 + MSG_IMAGE_PRODUCT_STATS_LEN + MSG_NAVIGATION_EXTR_RESULT_LEN +
+                    MSG_RADIOMETRIC_QUALITY_LEN + MSG_GEOMETRIC_QUALITY_LEN +
+                    MSG_TIMELINESS_COMPLETENESS_LEN)
+          throw std::runtime_error("Image epilogue data field is too short");
 
         epilogue = new MSG_data_level_15_trailer;
 
@@ -269,12 +297,12 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_BINARY_MESSAGE:
 
       dsize = header.data_field_length / 8;
-      dbuff = new unsigned char_1[dsize];
+      dfield.reset(new unsigned char_1[dsize]);
+      dbuff = dfield.get( );
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
-        std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field");
       }
       {
         std::ofstream os;
@@ -283,7 +311,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error("Cannot write " + outname);
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
@@ -291,12 +319,9 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
-      break;
+      throw std::runtime_error("Unknown MSG file type");
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
-- 
2.43.0


From 8a655c465c9f74a256b9ca45f1f38d053530606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 11/44] fix: generalized times are UTC

The Unix time was computed with mktime, which takes the fields as local time.
---
 msat/hrit/MSG_time_cds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..dfdd55a 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -349,7 +349,8 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  // The code is in UTC, mktime would take it as local time
+  return timegm(&generalized_time);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From 51be1ff118b049c87302a174466119832f0e3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 12/44] fix: scan generalized times inside their 15 characters

sscanf looks for the end of the string, which is not in the field.
---
 msat/hrit/MSG_time_cds.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index dfdd55a..e394a9f 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -338,7 +338,11 @@ MSG_time_generalized::~MSG_time_generalized( ) { }
 
 size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 {
-  sscanf((char *) buff, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
+  // The field is not NUL terminated
+  char_1 text[16];
+  memcpy(text, buff, 15);
+  text[15] = 0;
+  sscanf(text, "%4d%2d%2d%2d%2d%2dZ", &generalized_time.tm_year,
          &generalized_time.tm_mon,  &generalized_time.tm_mday,
          &generalized_time.tm_hour, &generalized_time.tm_min,
          &generalized_time.tm_sec);
-- 
2.43.0


From 5cc372b7b08b30609d6e3b8f0c3e9ab446be06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 13/44] fix: get_timechar returned a pointer to a destroyed
 string

The text is now kept until the next call, like gmtime and asctime do.
---
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index e394a9f..d064f81 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -122,7 +122,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +249,9 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +314,9 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -382,7 +388,9 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From 9f2c05cb377017262adbe5ecca455fda84ef40f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 14/44] fix: native lines own their sample data when copied

MSG_native::read() stores copies of one MSG_native_line: the copies shared the
raw data_10bit pointer, which was then freed once per copy.
---
 msat/msg-native/MSG_native_line.cpp | 25 +++++++++++++++++++++++++
 msat/msg-native/MSG_native_line.h   |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..66bf447 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -24,6 +24,7 @@
 
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
+#include <cstring>
 
 MSG_native_linedata::MSG_native_linedata( )
 {
@@ -31,6 +32,28 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata(const MSG_native_linedata &o)
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = o;
+}
+
+MSG_native_linedata& MSG_native_linedata::operator=(const MSG_native_linedata &o)
+{
+  if (this == &o) return *this;
+  unsigned char *copy = 0;
+  if (o.data_10bit)
+  {
+    copy = new unsigned char[o.datasize];
+    memcpy(copy, o.data_10bit, o.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = copy;
+  datasize = o.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -200,6 +223,8 @@ void MSG_native_line::read( std::ifstream &in )
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw;
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..a16e4af 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata(const MSG_native_linedata &o);
+    MSG_native_linedata& operator=(const MSG_native_linedata &o);
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From c934dc1d37d0c11c06a015d55519d4da7513f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 15/44] fix: unpack native samples without reading or writing
 past the line

A line whose data is not a whole number of 5 byte groups was read beyond its
end, and more samples than the returned buffer holds were written.
---
 msat/msg-native/MSG_native_line.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 66bf447..3c45a58 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -188,8 +188,8 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
 
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
-  unsigned int ipos = 0;
-  while (ipos < datasize)
+  size_t ipos = 0;
+  while (ipos + 5 <= datasize)
   {
     ps[0] = (((unsigned short) pc[0]      ) << 2) |
             (((unsigned short) pc[1]      ) >> 6);
@@ -203,6 +203,11 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
     ipos += 5;
     ps   += 4;
   }
+
+  // Samples in a last, incomplete group of 5 bytes
+  long left = *nsample - (ps - *samples);
+  for (long i = 0; i < left; i ++)
+    ps[i] = (((pc[i] << 8) | pc[i+1]) >> (6 - 2*i)) & 0x3ff;
   return;
 }
 
-- 
2.43.0


From ed8faed3e4717f4f6d7bc10fe6459eb98bd11fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 16/44] fix: report unreadable native files with an exception

A bare throw with no exception in flight terminates the program, and a packet
too short for a line header was not recognised because the size is unsigned.
---
 msat/msg-native/MSG_native_header.cpp  | 16 ++++++----------
 msat/msg-native/MSG_native_line.cpp    | 21 ++++++++++-----------
 msat/msg-native/MSG_native_trailer.cpp | 16 +++++-----------
 3 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..f35e50f 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 #include <msat/msg-native/MSG_native_header.h>
+#include <stdexcept>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
@@ -89,30 +90,26 @@ void MSG_native_header::read( std::ifstream &in )
   in.read((char *) ubuf, mph_sph_header.mph_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
   mph_sph_header.read_from(ubuf);
 
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -132,8 +129,7 @@ void MSG_native_header::read( std::ifstream &in )
   p += MSG_IMPF_CONFIGURATION_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 3c45a58..60b8ce7 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -25,6 +25,7 @@
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 #include <cstring>
+#include <stdexcept>
 
 MSG_native_linedata::MSG_native_linedata( )
 {
@@ -218,31 +219,29 @@ void MSG_native_line::read( std::ifstream &in )
   in.read((char *) lbuf, pkh.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < 15 + (unsigned long) header.lhlen)
   {
-    std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size.");
   }
   delete [ ] data.data_10bit;
   data.data_10bit = 0;
-  data.data_10bit = new unsigned char[data.datasize];
+  data.datasize = 0;
+  size_t datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
+  data.data_10bit = new unsigned char[datasize];
+  data.datasize = datasize;
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data.");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..d5f3850 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -23,6 +23,7 @@
 //-----------------------------------------------------------------------------
 
 #include <msat/msg-native/MSG_native_trailer.h>
+#include <stdexcept>
 
 void MSG_native_trailer::read( std::ifstream &in )
 {
@@ -32,24 +33,19 @@ void MSG_native_trailer::read( std::ifstream &in )
   in.read((char *) lbuf, impf_packet_header.pkh_len);
   if (in.fail( ))
   {
-    std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
-    std::cerr << "Trailer Size: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer Size: Read error from Native file: Level 1.5 Trailer.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
-    std::cerr << "Trailer: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer: Read error from Native file: Level 1.5 Trailer.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -65,9 +61,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   p += MSG_TIMELINESS_COMPLETENESS_LEN;
   if (((unsigned int) (p-x)) != l15_len)
   {
-    std::cerr << "Trailer checksum: "
-              << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Trailer checksum: Read error from Native file: Level 1.5 Trailer.");
   }
 
   return;
-- 
2.43.0


From b038a8dbc040cab8bd380a3b9f30473681fbdb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 17/44] fix: keep the text fields of a native header inside
 their buffers

A header without a NUL in its last field was read beyond its end, a long band
selection overran its buffer, and missing numbers were used uninitialised.
---
 msat/msg-native/MSG_native.cpp        | 6 +++---
 msat/msg-native/MSG_native_header.cpp | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..6b31eee 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -90,9 +90,9 @@ void MSG_native::read( )
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
-  char bandsel[16];
+  char bandsel[16] = "";
   sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+         "%*s : %15s", bandsel);
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -101,7 +101,7 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
+  long nlines = 0, ncols = 0, startl = 0, stopl = 0, startc = 0, stopc = 0;
   sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
          "%*s : %ld", &startl);
   sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f35e50f..81ba486 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -84,7 +84,9 @@ void U_MARF_Header::read_from(const unsigned char *buf)
 
 void MSG_native_header::read( std::ifstream &in )
 {
-  unsigned char ubuf[mph_sph_header.mph_len];
+  // The text fields are used as C strings: make sure that the last one ends
+  unsigned char ubuf[mph_sph_header.mph_len + 1];
+  ubuf[mph_sph_header.mph_len] = 0;
   unsigned char lbuf[impf_packet_header.pkh_len];
   unsigned char l15buf[l15_len];
   in.read((char *) ubuf, mph_sph_header.mph_len);
-- 
2.43.0


From d884d12aed244d5596977853e4980ea70a135380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:13 +0000
Subject: [PATCH 18/44] fix: keep the samples of a native line inside the image

MSG_native::data() wrote every sample of every line of the file, also past the
size announced by the header, and overwrote the next line with longer lines.
---
 msat/msg-native/MSG_native.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index 6b31eee..44f0e7b 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -24,6 +24,8 @@
 #include <iostream>
 #include <fstream>
 #include <cstring>
+#include <cstdio>
+#include <algorithm>
 #include <msat/msg-native/MSG_native.h>
 
 MSG_native::MSG_native( )
@@ -195,14 +197,14 @@ bool MSG_native::pgmdump(int ic, char *filename)
   std::list <MSG_native_line>::iterator p = line[ic].begin( );
   while (p != line[ic].end( ))
   {
+    s = 0;
     p->data.to_sample(&s, &ns);
     os.write((char *) s, ns*sizeof(short));
+    delete [ ] s;
     p ++;
   }
   os.close( );
 
-  delete [ ] s;
-
   return true;
 }
 
@@ -223,19 +225,22 @@ unsigned short *MSG_native::data(int channel)
   if (channel < 0 || channel >= SEVIRI_CHANNELS) return 0;
   if (!selected_channel[channel]) return 0;
 
-  long size = numberlines[channel]*numbercolumns[channel];
+  long size = (long) numberlines[channel]*numbercolumns[channel];
   long px = numbercolumns[channel];
 
-  unsigned short *s = new unsigned short[size];
+  unsigned short *s = new unsigned short[size]();
   unsigned short *sp;
   long ns;
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
   int count = 0;
-  while (p != line[channel].end( ))
+  while (p != line[channel].end( ) && count < numberlines[channel])
   {
-    sp = s+count*px;
+    // A line can hold more or less samples than the header announces
+    sp = 0;
     p->data.to_sample(&sp, &ns);
+    memcpy(s+count*px, sp, std::min(ns, px) * sizeof(unsigned short));
+    delete [ ] sp;
     p ++;
     count ++;
   }
-- 
2.43.0


From 04759a9d87ea6caeb5343d9a8932c2e6bbb5f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 19/44] fix: release an xRIT segment whose loading fails

---
 msat/xrit/dataaccess.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..92e7c1e 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -23,6 +23,7 @@
 #include <msat/xrit/dataaccess.h>
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
+#include <memory>
 #include <stdexcept>
 
 using namespace std;
@@ -179,13 +180,15 @@ MSG_data* DataAccess::segment(size_t idx) const
         // Load the segment
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
-        scache new_scache;
-        new_scache.segment = new MSG_data;
-        new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
+        std::unique_ptr<MSG_data> new_segment(new MSG_data);
+        read_file(segnames[idx].c_str(), header, *new_segment);
 
         // Put it in the front
+        scache new_scache;
+        new_scache.segment = new_segment.get();
+        new_scache.segno = idx;
         segcache.push_front(new_scache);
+        new_segment.release();
     } else {
         // The segment is in the cache: bring it to the front
         scache tmp = *i;
-- 
2.43.0


From 952e2b7d91a615b0ac39dbd68c80a42c284e5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 20/44] fix: refuse xRIT files without the headers that
 describe the image

---
 msat/xrit/dataaccess.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 92e7c1e..fc26417 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -102,6 +102,9 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id || !header.image_structure || !header.image_navigation
+                || header.image_structure->number_of_lines == 0)
+            throw std::runtime_error(i + ": not an image segment");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
@@ -119,6 +122,7 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
 
     if (hrv)
     {
+        if (!epi.epilogue) throw std::runtime_error("no coverage information in the epilogue");
         MSG_ActualL15CoverageHRV& cov = epi.epilogue->product_stats.ActualL15CoverageHRV;
         LowerEastColumnActual = cov.LowerEastColumnActual;
         LowerNorthLineActual = cov.LowerNorthLineActual;
-- 
2.43.0


From cdfc54c67ed4bd50637d732f450465e250cb6c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 21/44] fix: forget the records of an earlier header when
 reading another one

---
 msat/hrit/MSG_header.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 7d7b448..8191b2d 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -77,6 +77,26 @@ void MSG_header::read_from( std::ifstream &in )
 {
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
 
+  // Forget the records of a header read before
+  delete image_structure;
+  image_structure = 0;
+  delete image_navigation;
+  image_navigation = 0;
+  delete image_data_function;
+  image_data_function = 0;
+  delete annotation;
+  annotation = 0;
+  delete timestamp;
+  timestamp = 0;
+  delete ancillary_text;
+  ancillary_text = 0;
+  delete key;
+  key = 0;
+  delete segment_id;
+  segment_id = 0;
+  delete segment_quality;
+  segment_quality = 0;
+
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
-- 
2.43.0


From 853fa2b74a8986e7d90a952e943f8b6fa0e9cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 22/44] fix: OpenMTP_IDS::scanline() left out the last scan
 line

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..ea5207d 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -175,7 +175,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From abf64973a29ee4bbf06de69ffbb44f6ee34784cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 23/44] fix: OpenMTP-IDS products whose header announces no
 records, or not those present, ran beyond the record list

---
 msat/omtp-ids/OpenMTP-IDS.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ea5207d..6127f80 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -53,11 +53,14 @@ std::ostream&
 operator<<(std::ostream& os,
 	   const OpenMTP_IDS& openmtp_ids)
 {
-	os << openmtp_ids.m_fileheader;
+	// the file header counts as the first record
+	const unsigned no_records = openmtp_ids.m_record.size();
+	if (openmtp_ids.m_fileheader.no_records() < 1 ||
+	    openmtp_ids.m_fileheader.no_records() - 1u != no_records) {
+		throw "file header does not agree with the number of records\n";
+	}
 
-	// the first record was just written..
-	const unsigned no_records =
-		openmtp_ids.m_fileheader.no_records() - 1;
+	os << openmtp_ids.m_fileheader;
 
 	for (unsigned i = 0; i < no_records; i++) {
 		os << openmtp_ids.m_record[i];
@@ -77,6 +80,10 @@ operator>>(std::istream& is,
 		throw "failure while reading file header\n";
 	}
 
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw "file header without records\n";
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
-- 
2.43.0


From ddec9305e7a2a8adfcb065a204e6e8beaf32e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:02 +0000
Subject: [PATCH 24/44] fix: OpenMTP_IDS::read and write threw a pointer into a
 destroyed string

---
 msat/omtp-ids/OpenMTP-IDS.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 6127f80..b25ed4c 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -106,8 +106,8 @@ OpenMTP_IDS::read(const char* filename)
 {
 	std::ifstream is(filename);
 	if (!is) {
-		std::string err;
-		err += "could not open ";
+		static std::string err; // what is thrown points into it
+		err = "could not open ";
 		err += filename;
 		err += " for reading";
 		throw err.c_str();
@@ -116,8 +116,8 @@ OpenMTP_IDS::read(const char* filename)
 	is >> *this;
 
 	if (!is.good()) {
-		std::string err;
-		err += "error while reading ";
+		static std::string err; // what is thrown points into it
+		err = "error while reading ";
 		err += filename;
 		throw err.c_str();
 	}
@@ -132,8 +132,8 @@ OpenMTP_IDS::write(const char* filename)
 {
 	std::ofstream os(filename);
 	if (!os) {
-		std::string err;
-		err += "could not open ";
+		static std::string err; // what is thrown points into it
+		err = "could not open ";
 		err += filename;
 		err += " for writing";
 		throw err.c_str();
@@ -142,8 +142,8 @@ OpenMTP_IDS::write(const char* filename)
 	os << *this;
 
 	if (!os.good()) {
-		std::string err;
-		err += "error while writing ";
+		static std::string err; // what is thrown points into it
+		err = "error while writing ";
 		err += filename;
 		throw err.c_str();
 	}
-- 
2.43.0


From 5495679975ab06f4cfe9c34c7dc24d38789c655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:15 +0000
Subject: [PATCH 25/44] fix: FileHeader::satellite() kept the end of a longer
 previous name

---
 msat/omtp-ids/FileHeader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/omtp-ids/FileHeader.cc b/msat/omtp-ids/FileHeader.cc
index 85966d4..ddbf9be 100644
--- a/msat/omtp-ids/FileHeader.cc
+++ b/msat/omtp-ids/FileHeader.cc
@@ -261,5 +261,7 @@ FileHeader::satellite(const char* satellite)
 		? len
 		: SATELLITE_LEN;
 
+	// a shorter name leaves nothing of the previous one
+	memset(m_satellite, '\0', SATELLITE_LEN);
 	memcpy(m_satellite, satellite, copy_len);
 }
-- 
2.43.0


From 8ff989612a31392c3fdb5120515a765f2dd49547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 26/44] fix: HRI reals were read as eight byte words and zero
 fractions were not zero

r4_from_buff() and r8_from_buff() took the four byte words of a number
through an unsigned long, which reads beyond the number where a long has
eight bytes: the lower half of a double came from whatever lies beyond it.
A number with a zero fraction and an exponent was decoded as a power of
two, and doubles with only the lower half of the fraction set were not
normalised.
---
 msat/hri/HRI_machine.cpp | 99 ++++++++++++++++------------------------
 1 file changed, 40 insertions(+), 59 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..6ee589c 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -141,9 +141,16 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
+// The four bytes of a number, most significant first
+static inline uint32_t word( const unsigned char *buff )
 {
-   register unsigned long hiw, low;
+  return ((uint32_t) buff[0] << 24) | ((uint32_t) buff[1] << 16) |
+         ((uint32_t) buff[2] << 8) | (uint32_t) buff[3];
+}
+
+static inline void leftshift(uint32_t *pnt, int n)
+{
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -159,9 +166,9 @@ static inline void leftshift(unsigned long *pnt, int n)
    return;
 }
 
-static inline void rightshift(unsigned long *pnt, int n)
+static inline void rightshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -183,27 +190,21 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
         uint32_t i;
         float f;
     } uval;
-    unsigned long *pnt, sign, fraction;
+    uint32_t tmp, sign, fraction;
     long exponent;
-    unsigned char swp[4];
 
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
-   }
+   tmp = word(buff);
 
-   if ((pnt[0] & 0x7FFFFFFF) == 0)
-      return *((float *) pnt);
+   sign     =   tmp & 0x80000000;
+   exponent = (long) ((tmp & 0x7F000000) >> 24) - 64;
+   fraction =   tmp & 0x00FFFFFF;
 
-   sign     =   pnt[0] & 0x80000000;
-   exponent = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction =   pnt[0] & 0x00FFFFFF;
+   // without a fraction the number is zero, whatever its exponent
+   if (fraction == 0)
+   {
+      uval.i = sign;
+      return uval.f;
+   }
 
    if (exponent >= 0)
       exponent <<= 2;
@@ -211,13 +212,10 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
       exponent = -((-exponent) << 2);
 
    exponent = exponent - 1;
-   if (fraction)
+   while ((fraction & 0x00800000) == 0)
    {
-      while ((fraction & 0x00800000) == 0)
-      {
-         fraction <<= 1;
-         exponent = exponent - 1;
-      }
+      fraction <<= 1;
+      exponent = exponent - 1;
    }
 
    fraction &= 0x007FFFFF;
@@ -234,57 +232,40 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
     int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
+    uint32_t tmp, sign, fraction[2];
     union {
         uint32_t i[2];
         double d;
     } uval;
     long exponent;
-    unsigned char swp[8];
-
-   if (isbig)
-     pnt = (unsigned long *) buff;
-   else
-   {
-     swp[3] = buff[0];
-     swp[2] = buff[1];
-     swp[1] = buff[2];
-     swp[0] = buff[3];
-     swp[7] = buff[4];
-     swp[6] = buff[5];
-     swp[5] = buff[6];
-     swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
-   }
 
    if (isbig) { idxl = 0; idxh = 1; }
    else       { idxl = 1; idxh = 0; }
 
-   tmp = pnt[0];
-   if ((tmp & 0x7FFFFFFF) == 0)
+   tmp = word(buff);
+
+   sign        = tmp & 0x80000000;
+   exponent    = (long) ((tmp & 0x7F000000) >> 24) - 64;
+   fraction[0] = tmp & 0x00FFFFFF;
+   fraction[1] = word(buff + 4);
+
+   // without a fraction the number is zero, whatever its exponent
+   if (fraction[0] == 0 && fraction[1] == 0)
    {
-     uval.i[idxl] = pnt[0];
-     uval.i[idxh] = pnt[1];
+     uval.i[idxl] = sign;
+     uval.i[idxh] = 0;
      return uval.d;
    }
 
-   sign        = pnt[0] & 0x80000000;
-   exponent    = ((pnt[0] & 0x7F000000) >> 24) - 64;
-   fraction[0] = pnt[0] & 0x00FFFFFF;
-   fraction[1] = pnt[1];
-
    if (exponent >= 0)
       exponent <<= 2;
    else
       exponent = -((-exponent) << 2);
 
-   if (fraction[0])
+   while ((fraction[0] & 0x01000000) == 0)
    {
-      while ((fraction[0] & 0x01000000) == 0)
-      {
-         leftshift(fraction, 1);
-         exponent -= 1;
-      }
+      leftshift(fraction, 1);
+      exponent -= 1;
    }
 
    rightshift(fraction, 4);
-- 
2.43.0


From 75484ce6a4f320940d0007fb4d0c6c948d7a622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 27/44] fix: the western space count of the HRI IR channel was
 that of VIS 1

---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From d1bba99461f2a7ce8c18e51a0c699b181df72c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 28/44] fix: the second half of an HRI line overwrote the end
 of the first one

It was stored two pixels before its place, which also left the last two
pixels of every line undefined.
---
 msat/hri/HRI_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..fbbc94c 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -278,7 +278,7 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
   else
-    memcpy(data+linenum*npixels+halflin-2, dataline, linesize);
+    memcpy(data+linenum*npixels+halflin, dataline, linesize);
   return;
 }
 
-- 
2.43.0


From f228b64d2de2311af27cdb78d024f92eae2968b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 29/44] fix: HRI images made with a format were not
 initialised, changing the format leaked the image

---
 msat/hri/HRI_image.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index fbbc94c..f2b1390 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -49,6 +49,10 @@ HRI_image::HRI_image( HRI_image_satellite s,
                       HRI_image_format f,
 		      HRI_image_band b )
 {
+  data = 0;
+  aline = 0;
+  size = 0;
+  calibrated = false;
   set_format_band(s, f, b);
 }
 
@@ -230,6 +234,8 @@ void HRI_image::set_format_band( HRI_image_satellite s,
       std::cerr << "Undefined format in HRI_image" << std::endl;
       throw;
   }
+  if (data)  delete [ ] data;
+  if (aline) delete [ ] aline;
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
   assert(data);
-- 
2.43.0


From 376ed49c1160cca215815583b50254eb1611f887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:42 +0000
Subject: [PATCH 30/44] fix: X format visible images were named after the B
 format

---
 msat/hri/HRI_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index f2b1390..16e6d33 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -213,7 +213,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	case VH_BAND:
 	  name = "VH";
 	  units = "%";
-	  long_name = "BFormat_VHBand";
+	  long_name = "XFormat_VHBand";
 	  npixels = 1250;
 	  nlines  = 1250;
 	  lastpix = 1249;
-- 
2.43.0


From 7591da53311a81d9165c8d78349651197625553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 31/44] fix: errors in HRI files and images aborted the program
 instead of throwing

---
 msat/hri/HRI.cpp                         | 17 +++++++++--------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..76a3575 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -31,6 +31,7 @@
 #include <cstring>
 #include <ctime>
 #include <msat/hri/HRI.h>
+#include <stdexcept>
 
 Hri::Hri( char *hri_filename, bool IS_TECNAVIA )
 {
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("cannot open HRI file");
   }
 
   if (IS_TECNAVIA)
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid or not disseminated HRI image");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("read failed on HRI file");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("read failed on HRI file");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("invalid HRI format");
   }
   return linebuff;
 }
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("synchronisation error in HRI file");
   }
   return;
 }
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("synchronisation error in HRI file");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..75d9ffd 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <string>
 #include <iostream>
+#include <stdexcept>
 
 typedef struct {
   long CFAC;
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("unknown or unsupported format in HRI_geolocation");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index 16e6d33..55f913d 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -31,6 +31,7 @@
 #include <cassert>
 #include <cstring>
 #include <cmath>
+#include <stdexcept>
 
 HRI_image::HRI_image( )
 {
@@ -128,7 +129,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for A format image in HRI_image");
 	  break;
       }
       break;
@@ -177,7 +178,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for B format image in HRI_image");
 	  break;
       }
       break;
@@ -226,13 +227,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("undefined band for X format image in HRI_image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("undefined format in HRI_image");
   }
   if (data)  delete [ ] data;
   if (aline) delete [ ] aline;
@@ -250,14 +251,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("invalid line size in HRI_image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::out_of_range("line number out of range in HRI_image");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -272,14 +273,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("invalid half line size in HRI_image");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::out_of_range("line number out of range in HRI_image");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -296,7 +297,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::out_of_range("line number out of range in HRI_image");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -320,14 +321,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::out_of_range("line number out of range in HRI_image");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::out_of_range("pixel number out of range in HRI_image");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..3db51da 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -30,6 +30,7 @@
 #include <cstring>
 #include <ctime>
 #include <cstdio>
+#include <stdexcept>
 
 HRI_subframe_identification::HRI_subframe_identification( char *hsi )
 {
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("unknown satellite in HRI subframe identification");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("unknown satellite in HRI subframe identification");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..0271f2a 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
+#include <stdexcept>
 
 HRI_subframe_label::HRI_subframe_label( char hsl[24] )
 {
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("unknown format code in HRI subframe label");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From cf28c667362ad162b97df32600e240b421a4be59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 32/44] fix: decode hexadecimal escapes in decode_cstring

atoi() does not parse the 0x prefix, so every \xNN escape decoded to a
NUL character.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..931aba9 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -389,7 +389,7 @@ std::string decode_cstring(const std::string& str, size_t& lenParsed)
                               for (j = 0; j < 2 && i+2+j != str.end() && isxdigit(*(i+2+j)); ++j)
                                   buf[2+j] = *(i+2+j);
                               i += j;
-                              res += static_cast<char>(atoi(buf));
+                              res += static_cast<char>(strtoul(buf, nullptr, 16));
                               break;
                           }
                 default:
-- 
2.43.0


From b2f4f991a145844196d0bd67628982cdde6eaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 33/44] fix: do not read past the base64 decoding table for '{'

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index 931aba9..b4494e5 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From d38fbe6814a7671c46e2449947894f2d44d840e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 34/44] fix: decode_url of a lone percent sign

str.size() - 2 wraps around when the string has one character, so the
partial escape was decoded to a NUL character instead of being ignored.
---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index b4494e5..00a8300 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -431,7 +431,7 @@ std::string decode_url(const std::string& str)
         if (str[i] == '%')
         {
             // If there's a partial %something at the end, ignore it
-            if (i >= str.size() - 2)
+            if (i + 2 >= str.size())
                 return res;
             res += static_cast<char>(strtoul(str.substr(i+1, 2).c_str(), nullptr, 16));
             i += 2;
-- 
2.43.0


From 95773887a94abb2749c2a713e19a0293721a1da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:22 +0000
Subject: [PATCH 35/44] fix: reading blocks of a calibrated view overflowed the
 stack

Drivers whose block is the whole image (GRIB, NetCDF) need far more than the
stack has.
---
 msat/gdal/dataset.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..07621c3 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -23,6 +23,7 @@
 #include <gdal/ogr_spatialref.h>
 #include <msat/facts.h>
 #include <stdint.h>
+#include <vector>
 
 using namespace std;
 
@@ -386,8 +387,8 @@ double CalibratedRasterBand::GetNoDataValue(int *pbSuccess)
 CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 {
     // Read the raw data
-    uint16_t raw[nBlockXSize * nBlockYSize];
-    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw) == CE_Failure)
+    vector<uint16_t> raw((size_t)nBlockXSize * nBlockYSize);
+    if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
     // Compute reflectances
-- 
2.43.0


From b43e9df202ec36d4e8f150bed81a982c9e25e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:22 +0000
Subject: [PATCH 36/44] fix: missing pixels became values in calibrated views

A missing count was scaled like the others, giving the offset instead of the
missing value that the view declares.
---
 msat/gdal/dataset.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 07621c3..0dfc4f6 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -391,12 +391,19 @@ CPLErr CalibratedRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     if (ProxyRasterBand::IReadBlock(xblock, yblock, raw.data()) == CE_Failure)
         return CE_Failure;
 
+    int has_nodata = FALSE;
+    double nodata = rb.GetNoDataValue(&has_nodata);
+
     // Compute reflectances
     float* dest = (float*) buf;
     for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
     {
-        // Calibrate from counts to radiance
-        dest[i] = raw[i] * scale + ofs;
+        if (has_nodata && raw[i] == nodata)
+            // Missing values stay missing, see GetNoDataValue
+            dest[i] = 0.0;
+        else
+            // Calibrate from counts to radiance
+            dest[i] = raw[i] * scale + ofs;
     }
 
     return CE_None;
-- 
2.43.0


From 11c3ed8efb46ff47f665adee44d5a14e0b07022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:41 +0000
Subject: [PATCH 37/44] fix: source windows far too large passed the check of
 the source window

The sum of offset and size overflowed, so that a window like 1,1,2147483647,1
was taken as inside the image.
---
 msat/gdal/gdaltranslate.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..fcccec9 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -266,8 +266,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 #endif
         
         if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
-            || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-            || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+            || anSrcWin[2] > GDALGetRasterXSize(hDataset) - anSrcWin[0]
+            || anSrcWin[3] > GDALGetRasterYSize(hDataset) - anSrcWin[1] )
         {
             CPLError(CE_Failure, CPLE_AppDefined, 
                      "Computed -srcwin falls outside raster size of %dx%d.",
@@ -282,8 +282,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
 /* -------------------------------------------------------------------- */
     if( anSrcWin[0] < 0 || anSrcWin[1] < 0 
         || anSrcWin[2] <= 0 || anSrcWin[3] <= 0
-        || anSrcWin[0] + anSrcWin[2] > GDALGetRasterXSize(hDataset) 
-        || anSrcWin[1] + anSrcWin[3] > GDALGetRasterYSize(hDataset) )
+        || anSrcWin[2] > GDALGetRasterXSize(hDataset) - anSrcWin[0]
+        || anSrcWin[3] > GDALGetRasterYSize(hDataset) - anSrcWin[1] )
     {
         CPLError(CE_Failure, CPLE_AppDefined, 
                  "-srcwin %d %d %d %d falls outside raster size of %dx%d "
-- 
2.43.0


From 358a8618ebfecfb9c0ce110547ea0d4511afc75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:41 +0000
Subject: [PATCH 38/44] fix: recode ignored the target size

The sx and sy arguments had no effect: the output always had the size of the
crop area.
---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 0dfc4f6..113961e 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -125,6 +125,15 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	// Resample to the target size if it is not the size of the crop area
+	string osx = to_string(sx);
+	string osy = to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = osx.c_str();
+		translate.pszOYSize = osy.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
 
 	char** options = 0;
-- 
2.43.0


From 6571cc878ab628ea5d8e13f8da41dc23ef153f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:10 +0000
Subject: [PATCH 39/44] fix: xRIT lines longer than the raster were written
 outside of the block

---
 gdal/xrit/rasterband.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..27a3192 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -78,6 +78,13 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
 
     size_t linestart = xds->da.line_start(yblock);
 
+    // The length of a line comes from the file: it may not fit in a block
+    if (linestart > (size_t)nBlockXSize || xds->da.columns > (size_t)nBlockXSize - linestart)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Image line does not fit in the raster");
+        return CE_Failure;
+    }
+
     if (linear)
     {
         bzero(buf, nBlockXSize * sizeof(uint16_t));
-- 
2.43.0


From 54df2dd54691a7792d853f4d75cbc6259a64fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:10 +0000
Subject: [PATCH 40/44] fix: xRIT files of an unknown channel read calibrations
 that do not exist

---
 gdal/xrit/rasterband.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index 27a3192..c1c1140 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -32,6 +32,11 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
 
     /// Channel
     channel_id = header.segment_id->spectral_channel_id;
+    if (channel_id < 1 || channel_id > 12)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Unknown SEVIRI channel %d", channel_id);
+        return false;
+    }
     char buf[25];
     snprintf(buf, 25, "%d", channel_id);
     SetMetadataItem(MD_MSAT_CHANNEL_ID, buf, MD_DOMAIN_MSAT);
-- 
2.43.0


From 00acd13fc239a796ecc2b652245f7d76dbf94029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:26 +0000
Subject: [PATCH 41/44] fix: sources without a projection crashed, refused
 sources left their projection

---
 gdal/reflectance/base.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index 843745a..73f886d 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -14,13 +14,9 @@ ProxyDataset::~ProxyDataset() {
 
 void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
 {
-    if (!osr)
-    {
-        const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
-        if (!source_spatial_ref)
-            throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
-        osr = source_spatial_ref->Clone();
-    }
+    const OGRSpatialReference* source_spatial_ref = ds->GetSpatialRef();
+    if (!source_spatial_ref)
+        throw std::runtime_error(dsname + ": trying to add source without a spatial definition");
 
     double gt[6];
     if (ds->GetGeoTransform(gt) == CE_Failure)
@@ -40,10 +36,13 @@ void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
             throw std::runtime_error(dsname + ": cannot set metadata from source dataset");
         datetime = mdtime;
 
+        delete osr;
+        osr = source_spatial_ref->Clone();
+
         nRasterXSize = ds->GetRasterXSize();
         nRasterYSize = ds->GetRasterYSize();
     } else {
-        if (!osr->IsSame(ds->GetSpatialRef()))
+        if (!osr->IsSame(source_spatial_ref))
             throw std::runtime_error(dsname + ": inconsistent projection definitions in source datasets");
         if (memcmp(geotransform, gt, 6 * sizeof(double)) != 0)
             throw std::runtime_error(dsname + ": inconsistent affine geotransform coefficients in source datasets");
-- 
2.43.0


From 763d8c7dfdec59c12ade6507ffb59981b5a8c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:45 +0000
Subject: [PATCH 42/44] fix: derived rasters of sources without geographic
 coordinates crashed

---
 gdal/reflectance/pixeltolatlon.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 35fcdb2..4d32567 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -17,8 +17,17 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
 
     proj = osr->Clone();
     latlon = proj->CloneGeogCS();
-    latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
-    toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    if (latlon)
+    {
+        latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
+        toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    }
+    if (!toLatLon)
+    {
+        delete proj;
+        delete latlon;
+        throw std::runtime_error("coordinates of input dataset cannot be converted to latitude and longitude");
+    }
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
-- 
2.43.0


From 648a57281d8bf08daf684c61f9acd7ef1606fa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:27 +0000
Subject: [PATCH 43/44] fix: do not truncate long product ids when searching
 the files of an image

---
 msat/xrit/fileaccess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..ed170a7 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -38,7 +38,8 @@ namespace xrit {
 static std::string underscoreit(const std::string& base, int final_len)
 {
 	string res = base;
-	res.resize(final_len, '_');
+	if (res.size() < (size_t)final_len)
+		res.resize(final_len, '_');
 	return res;
 }
 
-- 
2.43.0


From 4a54d1ed6f816c43d3c5be955f4eb236ed91283e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:27 +0000
Subject: [PATCH 44/44] fix: removing the padding of an empty name component
 read out of range

---
 msat/xrit/fileaccess.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ed170a7..53dc2ed 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -45,6 +45,8 @@ static std::string underscoreit(const std::string& base, int final_len)
 
 static std::string deunderscore(const std::string& str)
 {
+    if (str.empty())
+        return str;
     size_t pos = str.size() - 1;
     while (pos > 0 && str[pos] == '_')
         --pos;
-- 
2.43.0

