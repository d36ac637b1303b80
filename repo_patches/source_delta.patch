From b0ac1ecfad0a65a419264b3a079e2693c203e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 001/206] fix: single-threaded V1 extraction reported an index
 pair instead of the region's points and no rectangle

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..9ed07a5 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2969,12 +2969,12 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 94c367358c7080119361b51f5bec3531829ab96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 002/206] fix: component stack too small for an image using all
 256 gray levels

---
 basicimg/include/img_fast_mser_v1.h | 2 +-
 basicimg/include/img_fast_mser_v2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..46f7a32 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -107,7 +107,7 @@ namespace basicimg {
 			mt_block_memory<mser_region> m_mser_regions;
 
 			i16** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//a sentinel and one component for each of the 256 levels
 			i16** m_heap_start[257];
 
 			mser_region** m_boundary_regions[4];	//left, right, top, bottom
diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index 1798e77..f10b1c1 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -80,7 +80,7 @@ namespace basicimg {
 			i32 m_er_number;
 			mt_block_memory<mser_region> m_mser_regions;
 			u32** m_heap;
-			connected_comp m_comp[256];
+			connected_comp m_comp[257];	//a sentinel and one component for each of the 256 levels
 			u32** m_heap_start[257];
 
 			i32 m_dir[9];
-- 
2.43.0


From 0daadd48d5f28c2c04f689e7f8bd06db00a0adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 003/206] fix: multi-threaded V1 extraction dropped the pixels
 of the last regions

---
 basicimg/src/img_fast_mser_v1.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 9ed07a5..4826274 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,10 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		// the last thread takes all the remaining regions
+		if (cur_size > parallel_size && index + 1 < m_parallel_thread_number) {
 			++index;
 
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 7ad006c734f7370e53dfb615780973f6e8bf7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:38 +0000
Subject: [PATCH 004/206] fix: V2 pixel extraction only worked with four
 threads

---
 basicimg/src/img_fast_mser_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..495ab88 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,14 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	// spread the 1, 4 or 32 partitions over the four workers
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = (u32)m_pinfo.size() * i / 4;
+		partition_stop_indexes[i] = (u32)m_pinfo.size() * (i + 1) / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From e31736f06dfd62ce734e9cb55b8356cad1e26816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 005/206] fix: V2 reported the inverted gray level of bright
 regions

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 495ab88..8c7172a 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1882,7 +1882,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From 71fa6bb31015306490564f1cb5fc768cb314d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 006/206] fix: V2 corrupted memory when only bright regions
 were wanted

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 8c7172a..0a2aa6f 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -429,7 +429,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 1757c2c384346c864e150a61caf722b55cc26bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 007/206] fix: V2 reported too small boxes for regions spanning
 several partitions

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 0a2aa6f..be92e08 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1991,13 +1991,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From b78a9dcd0b048de32677fe77e2fd2c65192f088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 008/206] fix: copied extraction results referred to the points
 of the original

Assigning an img_multi_msers freed malloc'd points with delete[], kept the
shared regions pointing into the source object's points (dangling once it is
gone), left freed pointers when the source held no points, and destroyed the
points on self-assignment.
---
 basicimg/src/img_mser_base.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..5355bb0 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -51,23 +51,30 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
+	if (this == &other) {
+		return;
+	}
+
 	m_msers[0] = other.m_msers[0];
 	m_msers[1] = other.m_msers[1];
 
 	m_memory_size[0] = other.m_memory_size[0];
 	m_memory_size[1] = other.m_memory_size[1];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+	for (i32 i = 0; i < 2; ++i) {
+		basicsys_free(m_memory[i]);
 
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+		if (m_memory_size[i] > 0) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
+		}
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+		//the copied regions must refer to the copied points
+		for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+			if (m_msers[i][j].m_memory_type != img_mser::Memory_Type_Self && other.m_memory[i] != NULL) {
+				m_msers[i][j].m_points = m_memory[i] + (other.m_msers[i][j].m_points - other.m_memory[i]);
+			}
+		}
 	}
 }
 
-- 
2.43.0


From f9a18e37fa3e17bd0c225c093745bb51e2a21fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 009/206] fix: assigning an img_mser leaked or wrongly freed
 its old points

Whether the old points belong to the region is a matter of its old storage
kind, not of the one it is about to take over.
---
 basicimg/src/img_mser_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 5355bb0..f8cd93f 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
-- 
2.43.0


From adff500f3fb3a9d802370e55affdf923c229d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 010/206] fix: changing the number of threads freed region
 memory still in use

Growing the vector of partition infos copied their block memories member by
member, so the old and the new info owned the same blocks.
---
 basicimg/src/img_fast_mser_v1.cpp | 6 ++++++
 basicimg/src/img_fast_mser_v2.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 4826274..b9e6260 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -88,6 +88,12 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
 	
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		//the infos own their region memory and must not be copied by resizing
+		vector<parallel_info> temp;
+		m_pinfo.swap(temp);
+	}
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index be92e08..9f313e2 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -68,6 +68,12 @@ void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		basiclog_assert2(sys_false);
 	}
 
+	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
+		//the infos own their region memory and must not be copied by resizing
+		vector<parallel_info> temp;
+		m_pinfo.swap(temp);
+	}
+
 	m_pinfo.resize(m_parallel_thread_number);
 	m_partition_indexes.resize((horizontal_partition_number + vertical_partition_number) * 2);
 
-- 
2.43.0


From b77505522145c7d18d2f0e88e8d580cecf53b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 011/206] fix: V1 leaked its merge order indexes on every
 extraction

---
 basicimg/src/img_fast_mser_v1.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index b9e6260..7c40f2d 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,11 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -66,6 +71,12 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
 
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
+
 	m_heap_size = 0;
 	m_masked_image_size = 0;
 	m_linked_point_size = 0;
@@ -88,6 +99,12 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
 	
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
+
 	if ((i32)m_pinfo.size() != m_parallel_thread_number) {
 		//the infos own their region memory and must not be copied by resizing
 		vector<parallel_info> temp;
-- 
2.43.0


From bf23f74f2c2da7d23c94f91ab3ce7cbaa3fd8ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:32 +0000
Subject: [PATCH 012/206] fix: V2 leaked its helper tables on every extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 9f313e2..0083c63 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -2063,6 +2063,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (mser_block_indexes != (i32*)(m_heap) + total_region_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From 661d57bd5daf2df120ecaa3aa55d2c5ebd302c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 013/206] fix: V2 without suppression of similar regions wrote
 beyond its heap

With a negative similarity limit the end of a partition's region list was
kept as its start for the next polarity.
---
 basicimg/src/img_fast_mser_v2.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 0083c63..227e577 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1200,6 +1200,12 @@ void img_fast_mser_v2::recognize_mser_parallel_4_acceleration() {
 	
 	mser_region* parent_region;
 
+	if (m_nms_similarity < 0) {
+		for (i32 i = 0; i < 4; ++i) {
+			m_pinfo[i].m_heap = raw_heap_start[i];
+		}
+	}
+
 	if (m_nms_similarity >= 0) {
 		for (i32 i = 0; i < 4; ++i) {
 			mser_region** heap_region_end = (mser_region**)m_pinfo[i].m_heap;
-- 
2.43.0


From f709a3b0a408dc146df12c1e36be6668ec8d23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 014/206] fix: V2 crashed with 8-neighbour connectivity

It looked at the first four directions only and took the unfinished pixels
for finished ones, and partitions were not joined across diagonals.
---
 basicimg/include/img_fast_mser_v2.h |  2 ++
 basicimg/src/img_fast_mser_v2.cpp   | 32 ++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_fast_mser_v2.h b/basicimg/include/img_fast_mser_v2.h
index f10b1c1..7a8d23e 100644
--- a/basicimg/include/img_fast_mser_v2.h
+++ b/basicimg/include/img_fast_mser_v2.h
@@ -144,6 +144,8 @@ namespace basicimg {
 
 		void connect(mser_region* a, mser_region* b);
 
+		void connect_diagonal(mser_region* a, mser_region* b);
+
 		/** Determine msers
 		*/
 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 227e577..f4a0f19 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -273,13 +273,14 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 
 	i16 nbr_gray;
 	i32 nbr_index;
+	i32 nbr_number = m_boundary_pixel >> m_dir_shift;	//one more than the 4 or 8 directions
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index < nbr_number) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
@@ -557,6 +558,10 @@ void img_fast_mser_v2::merge_tree_parallel_32() {
 }
 
 void img_fast_mser_v2::merge_tree_parallel_step(u32* parallel_indexes, u32 size, u32 parallel_step, b8 left_right) {
+	//the previous pair along the border, for the diagonal neighbors
+	mser_region* prev_a = NULL;
+	mser_region* prev_b = NULL;
+
 	if (left_right) {
 		for (u32 i = 0; i < size; ++i) {
 			u32 a_parallel_index = parallel_indexes[i];
@@ -578,6 +583,13 @@ void img_fast_mser_v2::merge_tree_parallel_step(u32* parallel_indexes, u32 size,
 
 				connect(a, b);
 
+				if (img_Connected_Type_8_Neibour == m_connected_type) {
+					connect_diagonal(prev_a, b);
+					connect_diagonal(a, prev_b);
+					prev_a = a;
+					prev_b = b;
+				}
+
 				a_link_points += a_step;
 				b_link_points += b_step;
 			}
@@ -603,6 +615,13 @@ void img_fast_mser_v2::merge_tree_parallel_step(u32* parallel_indexes, u32 size,
 
 				connect(a, b);
 
+				if (img_Connected_Type_8_Neibour == m_connected_type) {
+					connect_diagonal(prev_a, b);
+					connect_diagonal(a, prev_b);
+					prev_a = a;
+					prev_b = b;
+				}
+
 				a_link_points += a_step;
 				b_link_points += b_step;
 			}
@@ -610,6 +629,17 @@ void img_fast_mser_v2::merge_tree_parallel_step(u32* parallel_indexes, u32 size,
 	}
 }
 
+void img_fast_mser_v2::connect_diagonal(mser_region* a, mser_region* b) {
+	if (a == NULL || b == NULL) {
+		return;
+	}
+
+	get_real_for_merged(a);
+	get_real_for_merged(b);
+
+	connect(a, b);
+}
+
 void img_fast_mser_v2::connect(mser_region* bigger, mser_region* smaller) {
 	b8 first = sys_true;
 
-- 
2.43.0


From 3eb1e9de9696bad7151aae7635c13c185717b000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 015/206] fix: multi-threaded V1 did not join partitions across
 diagonals with 8-neighbour connectivity

---
 basicimg/include/img_fast_mser_v1.h |  2 ++
 basicimg/src/img_fast_mser_v1.cpp   | 47 +++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 46f7a32..afec529 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -198,6 +198,8 @@ namespace basicimg {
 
 		void connect(mser_region* a, mser_region* b, u32 split_patch_index);
 
+		void connect_diagonals(const u32* patch_indexes, i32 size, u32 patch_step, b8 left_right);
+
 		/** Determine msers
 		*/
 
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 7c40f2d..98d1e79 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1975,6 +1975,45 @@ void img_fast_mser_v1::merge_tree_parallel_2_step_with_order(i32 rows, i32 cols)
 
 		connect(a, b, split_patch_index);
 	}
+
+	u32 left_patch_index = 0;
+	connect_diagonals(&left_patch_index, 1, 1, sys_true);
+}
+
+void img_fast_mser_v1::connect_diagonals(const u32* patch_indexes, i32 size, u32 patch_step, b8 left_right) {
+	if (img_Connected_Type_8_Neibour != m_connected_type) {
+		return;
+	}
+
+	//the previous pair along the border
+	mser_region* prev_a = NULL;
+	mser_region* prev_b = NULL;
+
+	for (i32 p = 0; p < size; ++p) {
+		parallel_info& a_info = m_pinfo[patch_indexes[p]];
+		parallel_info& b_info = m_pinfo[patch_indexes[p] + patch_step];
+		mser_region** a_base = a_info.m_boundary_regions[left_right ? 1 : 3];
+		mser_region** b_base = b_info.m_boundary_regions[left_right ? 0 : 2];
+		i32 length = left_right ? a_info.m_height : a_info.m_width;
+
+		for (i32 i = 0; i < length; ++i) {
+			mser_region* a = a_base[i];
+			mser_region* b = b_base[i];
+
+			if (prev_a != NULL) {
+				get_real_for_merged(prev_a);
+				get_real_for_merged(b);
+				connect(prev_a, b, patch_indexes[p]);
+
+				get_real_for_merged(a);
+				get_real_for_merged(prev_b);
+				connect(a, prev_b, patch_indexes[p]);
+			}
+
+			prev_a = a;
+			prev_b = b;
+		}
+	}
 }
 
 void img_fast_mser_v1::merge_tree_parallel_4_step_with_order(u8 merged_flag, i32 rows, i32 cols) {
@@ -2010,6 +2049,9 @@ void img_fast_mser_v1::merge_tree_parallel_4_step_with_order(u8 merged_flag, i32
 
 			connect(a, b, split_patch_index);
 		}
+
+		u32 left_patch_indexes[2] = {0, 2};
+		connect_diagonals(left_patch_indexes, 2, 1, sys_true);
 	} else {
 		mser_region** left_a_base = &m_pinfo[0].m_boundary_regions[3][0];
 		mser_region** left_b_base = &m_pinfo[2].m_boundary_regions[2][0];
@@ -2037,6 +2079,9 @@ void img_fast_mser_v1::merge_tree_parallel_4_step_with_order(u8 merged_flag, i32
 
 			connect(a, b, split_patch_index);
 		}
+
+		u32 top_patch_indexes[2] = {0, 1};
+		connect_diagonals(top_patch_indexes, 2, 2, sys_false);
 	}
 }
 
@@ -2247,6 +2292,8 @@ void img_fast_mser_v1::merge_tree_parallel_step(const mt_mat& src, u8 gray_mask,
 			connect(a, b, split_patch_index);
 		}
 	}
+
+	connect_diagonals(parallel_indexes, size, parallel_step, left_right);
 }
 
 void img_fast_mser_v1::connect(mser_region* bigger, mser_region* smaller, u32 split_patch_index) {
-- 
2.43.0


From b1afb976a22dfff42a4f2a543aec024f4f806194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 016/206] fix: the logging macros swallowed the else branch of
 an unbraced if

---
 basiclog/include/basiclog.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/basiclog/include/basiclog.h b/basiclog/include/basiclog.h
index 0c42762..13c8061 100644
--- a/basiclog/include/basiclog.h
+++ b/basiclog/include/basiclog.h
@@ -1,25 +1,25 @@
 #pragma once
 
 #define basiclog_debug(tag, msg)	\
-	if (basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_debug()) basiclog::log_logger::get_logger()->print("debug", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
+	if (basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_debug()) {} else basiclog::log_logger::get_logger()->print("debug", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
 
 #define basiclog_info(tag, msg)	\
-	if (basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_info()) basiclog::log_logger::get_logger()->print("info", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
+	if (basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_info()) {} else basiclog::log_logger::get_logger()->print("info", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
 
 #define basiclog_warning(tag, msg)	\
-	if (basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_warning()) basiclog::log_logger::get_logger()->print("warning", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
+	if (basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_warning()) {} else basiclog::log_logger::get_logger()->print("warning", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
 
 #define basiclog_error(tag, msg)	\
-	if (basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_error()) basiclog::log_logger::get_logger()->print("error", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
+	if (basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_error()) {} else basiclog::log_logger::get_logger()->print("error", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
 
 #define basiclog_assert(tag, condition)	\
-	if (!(condition) && basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_error()) basiclog::log_logger::get_logger()->print("error", tag, "", __FILE__, __LINE__)
+	if ((condition) || basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_error()) {} else basiclog::log_logger::get_logger()->print("error", tag, "", __FILE__, __LINE__)
 
 #define basiclog_assert_message(tag, condition, msg)	\
-	if (!(condition) && basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_error()) basiclog::log_logger::get_logger()->print("error", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
+	if ((condition) || basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_error()) {} else basiclog::log_logger::get_logger()->print("error", tag, basicsys::sys_strcombine()<<msg, __FILE__, __LINE__)
 
 #define basiclog_unsupport(tag)	\
-	if (basiclog::log_logger::get_logger() != NULL && basiclog::log_logger::get_logger()->is_enable_error()) basiclog::log_logger::get_logger()->print("error", tag, "unsupport operation", __FILE__, __LINE__)
+	if (basiclog::log_logger::get_logger() == NULL || !basiclog::log_logger::get_logger()->is_enable_error()) {} else basiclog::log_logger::get_logger()->print("error", tag, "unsupport operation", __FILE__, __LINE__)
 
 
 
-- 
2.43.0


From 9a8941faba6a8622ce823e4f2816b651db983a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 017/206] fix: the console logger went silent after the first
 non-ASCII character

---
 basiclog/src/basiclog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..ecef278 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -177,7 +177,7 @@ string log_logger::format_timestamp() const {
 }
 
 void log_console_logger::print(const string& log_info) {
-	wcout<<log_info.c_str();
+	cout<<log_info;
 }
 
 void log_ide_console_logger::print(const string& log_info) {
-- 
2.43.0


From 4621b4dac6f632e4d5cfd2a2a2017f381bf8232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 018/206] fix: add_filter was declared but never defined

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index ecef278..52793a7 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -60,6 +60,11 @@ void log_logger::set_filter(const std::vector<string>& filters) {
 	m_filters = filters;
 }
 
+void log_logger::add_filter(const string& filter) {
+	sys_thread_lock lock(m_mutex);
+	m_filters.push_back(filter);
+}
+
 void log_logger::get_filter(vector<string>& filters) {
 	sys_thread_lock lock(m_mutex);
 	filters = m_filters;
-- 
2.43.0


From 3c9b9a066deb2787cccf0003de7714eebf4baa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 019/206] fix: the file logger crashed when a log file could
 not be opened

---
 basiclog/src/basiclog.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 52793a7..0f46262 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -253,6 +253,12 @@ void log_file_logger::print(const string& log_info) {
 
 		fopen_s(&m_cur_file, m_list_files.back().c_str(), "wb");
 		m_cur_file_log_number = 0;
+
+		if (m_cur_file == NULL) {
+			//the record is lost, the next one tries again
+			m_list_files.pop_back();
+			return;
+		}
 	}
 	
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
-- 
2.43.0


From ea0738c0c16e6a51978860132de6b58fcbee7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:15 +0000
Subject: [PATCH 020/206] fix: the file logger overwrote log files begun within
 the same second

---
 basiclog/src/basiclog.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 0f46262..12fda80 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -245,7 +245,14 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		//the title has a resolution of one second only, a file with older records must not be overwritten
+		string title = m_save_dir + generate_new_file_title();
+		string path = title + ".txt";
+		for (int i = 2; sys_path::is_exist(path); ++i) {
+			path = title + sys_strhelper::combine(" (%d)", i) + ".txt";
+		}
+
+		m_list_files.push_back(path);
 
 		if (m_cur_file != NULL) {
 			fclose(m_cur_file);
-- 
2.43.0


From b3e5cdba7ea2db5be9f17c1eb55b7eff8776906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 021/206] fix: the file logger removed old logs although no new
 log file could be begun

---
 basiclog/src/basiclog.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 12fda80..b33b5dd 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -240,11 +240,6 @@ void log_file_logger::set_max_file_number(int max_number) {
 
 void log_file_logger::print(const string& log_info) {
 	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
-		if ((int)m_list_files.size() == m_max_file_number) {
-			remove(m_list_files.front().c_str());
-			m_list_files.pop_front();
-		}
-
 		//the title has a resolution of one second only, a file with older records must not be overwritten
 		string title = m_save_dir + generate_new_file_title();
 		string path = title + ".txt";
@@ -266,6 +261,11 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_back();
 			return;
 		}
+
+		while ((int)m_list_files.size() > m_max_file_number && m_list_files.size() > 1) {
+			remove(m_list_files.front().c_str());
+			m_list_files.pop_front();
+		}
 	}
 	
 	fprintf(m_cur_file, "%s", sys_strconvert::utf8_from_local(log_info).c_str());
-- 
2.43.0


From 6dd3b8816a5a169528386a694e0d15869a530071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 022/206] fix: the file logger ignored the directory given to
 its constructor

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index b33b5dd..bd17410 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -199,6 +199,7 @@ log_file_logger::~log_file_logger() {
 log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* = 50000 */, int max_file_number /* = 10000 */, const string& timestamp /* = "%Y/%m/%d %H:%M:%S" */, bool is_pos_contain_dir /* = false */) 
 	: log_logger(timestamp, is_pos_contain_dir) {
 
+		m_save_dir = dir;
 		m_file_max_log_number = file_max_log_number;
 		m_max_file_number = max_file_number;
 		m_cur_file = NULL;
-- 
2.43.0


From 932e9229baecd42f16390cd0fc7aaf9fdd2dbc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 023/206] fix: the file logger never recovered when its
 directory could not be created at first

---
 basiclog/src/basiclog.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index bd17410..1b251a5 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -240,6 +240,11 @@ void log_file_logger::set_max_file_number(int max_number) {
 }
 
 void log_file_logger::print(const string& log_info) {
+	if (NULL == m_cur_file) {
+		//creating the directory may have failed before
+		sys_path::create_multi_dir(m_save_dir);
+	}
+
 	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
 		//the title has a resolution of one second only, a file with older records must not be overwritten
 		string title = m_save_dir + generate_new_file_title();
-- 
2.43.0


From e2b5ec0e1078eb76bcd38ef59fec284f4a268d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 024/206] fix: lowering the limits of the file logger at run
 time had no effect

---
 basiclog/src/basiclog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1b251a5..cdfebae 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -245,7 +245,7 @@ void log_file_logger::print(const string& log_info) {
 		sys_path::create_multi_dir(m_save_dir);
 	}
 
-	if (NULL == m_cur_file || m_cur_file_log_number == m_file_max_log_number) {
+	if (NULL == m_cur_file || m_cur_file_log_number >= m_file_max_log_number) {
 		//the title has a resolution of one second only, a file with older records must not be overwritten
 		string title = m_save_dir + generate_new_file_title();
 		string path = title + ".txt";
-- 
2.43.0


From e96cc8725fd4962ae1839fe3f6b6478f20dfbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:11 +0000
Subject: [PATCH 025/206] fix: a file that could not be opened was taken for an
 open one

---
 basicsys/include/sys_basic_define.h |  2 +-
 basicsys/src/sys_buffer.cpp         | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/basicsys/include/sys_basic_define.h b/basicsys/include/sys_basic_define.h
index 6ad0bcf..b8f09b0 100644
--- a/basicsys/include/sys_basic_define.h
+++ b/basicsys/include/sys_basic_define.h
@@ -92,7 +92,7 @@ namespace basicsys {
 static int fopen_s(FILE ** fp, const char * path, const char * flag) {
 	*fp = fopen(path, flag);
 
-	if (*flag != NULL) {
+	if (*fp != NULL) {
 		return 0;
 	}
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..ce8494d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -323,7 +323,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (m_file == NULL || fwrite(start, stop - start, 1, m_file) != 1) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
@@ -334,7 +334,7 @@ sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8*
 i64 sys_byte_file_buffer_writer::position() const {
 	i64 res = 0;
 
-	if (fgetpos(m_file, &res) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 	}
@@ -343,7 +343,7 @@ i64 sys_byte_file_buffer_writer::position() const {
 }
 
 sys_buffer_writer* sys_byte_file_buffer_writer::seek(i64 offset, sys_File_Seek seek_type) {
-	if (fseek(m_file, (long)offset, seek_type) != 0) {
+	if (m_file == NULL || fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
 	}
@@ -523,7 +523,7 @@ void sys_byte_file_buffer_reader::read(u8* start, i32 size) const {
 
 i64 sys_byte_file_buffer_reader::position() const {
 	i64 res = 0;
-	if (fgetpos(m_file, &res) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 
@@ -535,7 +535,7 @@ i64 sys_byte_file_buffer_reader::position() const {
 
 i64 sys_byte_file_buffer_reader::size() const {
 	i64 cur_pos = 0;
-	if (fgetpos(m_file, &cur_pos) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &cur_pos) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 		return -1;
@@ -564,7 +564,7 @@ i64 sys_byte_file_buffer_reader::size() const {
 }
 
 sys_buffer_reader* sys_byte_file_buffer_reader::seek(i64 offset, sys_File_Seek seek_type) {
-	if (fseek(m_file, (long)offset, seek_type) != 0) {
+	if (m_file == NULL || fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
 	}
@@ -760,7 +760,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::write(const string& val) {
 	i32 size = (i32)val.size() * sizeof(i8);
 	i32 f_res = val.empty() ? 0 : 1;
 
-	if (fwrite(val.c_str(), size, 1, m_file) != f_res) {
+	if (m_file == NULL || fwrite(val.c_str(), size, 1, m_file) != f_res) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
@@ -771,7 +771,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::write(const string& val) {
 i64 sys_string_file_buffer_writer::position() const {
 	i64 res = 0;
 
-	if (fgetpos(m_file, &res) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 	}
@@ -780,7 +780,7 @@ i64 sys_string_file_buffer_writer::position() const {
 }
 
 sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek seek_type) {
-	if (fseek(m_file, (long)offset, seek_type) != 0) {
+	if (m_file == NULL || fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
 	}
@@ -875,7 +875,7 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 
 i64 sys_string_file_buffer_reader::position() const {
 	i64 res = 0;
-	if (fgetpos(m_file, &res) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &res) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 
@@ -887,7 +887,7 @@ i64 sys_string_file_buffer_reader::position() const {
 
 i64 sys_string_file_buffer_reader::size() const {
 	i64 cur_pos = 0;
-	if (fgetpos(m_file, &cur_pos) != 0) {
+	if (m_file == NULL || fgetpos(m_file, &cur_pos) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fgetpos");
 		return -1;
@@ -916,7 +916,7 @@ i64 sys_string_file_buffer_reader::size() const {
 }
 
 sys_buffer_reader* sys_string_file_buffer_reader::seek(i64 offset, sys_File_Seek seek_type) {
-	if (fseek(m_file, (long)offset, seek_type) != 0) {
+	if (m_file == NULL || fseek(m_file, (long)offset, seek_type) != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fseek");
 
-- 
2.43.0


From eba8fc577b6a4470a0601e44d0990e09f65894fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 026/206] fix: read_line of string readers never ended, read
 over the line break, and read_char did not advance

---
 basicsys/include/sys_buffer.h |  4 ++--
 basicsys/src/sys_buffer.cpp   | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..b9181fb 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -226,7 +226,7 @@ namespace basicsys {
 		virtual sys_buffer_reader* seek(i64 offset, sys_File_Seek seek_type);
 
 		virtual b8 is_eof() const {
-			return remain_size() == 0;
+			return remain_size() <= 0;
 		}
 
 		virtual sys_byte_buffer_reader* to_byte_buffer_reader() {return this;}
@@ -432,7 +432,7 @@ namespace basicsys {
 		sys_string_buffer_reader* to_string_buffer_reader() {return this;}
 
 		virtual b8 is_eof() const {
-			return remain_size() == 0;
+			return remain_size() <= 0;
 		}
 
 	protected:
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index ce8494d..8618ff6 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -673,8 +673,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
@@ -702,9 +704,11 @@ void sys_string_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (m_io_status != sys_IO_Status_OK || c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -934,8 +938,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (m_io_status != sys_IO_Status_OK || c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From cac209ed8f34cd84038f84a6833b97fa5ec8aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 027/206] fix: file buffers reported an uninitialised status
 instead of their I/O errors

---
 basicsys/include/sys_buffer.h | 16 ----------------
 basicsys/src/sys_buffer.cpp   |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index b9181fb..1eb3ff0 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -260,15 +260,10 @@ namespace basicsys {
 
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_byte_file_buffer_reader : public sys_byte_buffer_reader {
@@ -283,10 +278,6 @@ namespace basicsys {
 			return m_file == NULL;
 		}
 
-		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
-		}
-
 		/**
 
 		@note the read operation will move the position of the FILE structure!
@@ -324,7 +315,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
@@ -463,15 +453,10 @@ namespace basicsys {
 		
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
-		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
-		}
-
 	protected:
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 	class sys_string_file_buffer_reader : public sys_string_buffer_reader {
@@ -503,7 +488,6 @@ namespace basicsys {
 
 		FILE* m_file;
 		b8 m_need_close_file;
-		mutable sys_IO_Status m_file_io_status;
 	};
 
 
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 8618ff6..87768c5 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -805,7 +805,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From b3fe844412d0ab2dd1b29b7d3a1cadf1438e6e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 028/206] fix: file buffers ignored failures of closing, and
 byte file readers never closed their file

---
 basicsys/include/sys_buffer.h |  2 ++
 basicsys/src/sys_buffer.cpp   | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index 1eb3ff0..d58acab 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -274,6 +274,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 87768c5..2dce7eb 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -314,8 +314,9 @@ sys_byte_file_buffer_writer::~sys_byte_file_buffer_writer() {
 }
 
 void sys_byte_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && m_need_close_file && fclose(m_file) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		basiclog_warning2("failed to fclose");
 	}
 
 	m_file = NULL;
@@ -375,6 +376,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
@@ -753,8 +762,9 @@ sys_string_file_buffer_writer::~sys_string_file_buffer_writer() {
 }
 
 void sys_string_file_buffer_writer::close() {
-	if (m_file != NULL && m_need_close_file) {
-		fclose(m_file);
+	if (m_file != NULL && m_need_close_file && fclose(m_file) != 0) {
+		m_io_status = sys_IO_Status_Error_File_Operation;
+		basiclog_warning2("failed to fclose");
 	}
 
 	m_file = NULL;
-- 
2.43.0


From 95f0d0cbd967f5202582fef1ea3c1aa638e47402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:29 +0000
Subject: [PATCH 029/206] fix: readers cut strings at a NUL, leaked, and
 returned garbage for a string longer than the file

---
 basicsys/src/sys_buffer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 2dce7eb..dd146c7 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str.assign(buffer, character_number);
 	}
 	
 	delete[] buffer;
@@ -868,7 +868,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
@@ -883,8 +883,11 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 		basiclog_warning2("failed to fread");
 	}
 
-	temp[character_count] = 0;
-	str = temp;
+	if (m_io_status == sys_IO_Status_OK) {
+		str.assign(temp, character_count);
+	}
+
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From 1c4efa00a6791b41075fd5df6dbf9dad2687118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:31 +0000
Subject: [PATCH 030/206] fix: file buffers opened for appending truncated the
 file

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index dd146c7..1661455 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -295,7 +295,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
@@ -743,7 +743,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
 	}
-- 
2.43.0


From 0d23d94db88be530825751913f74a4538e1eb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:33 +0000
Subject: [PATCH 031/206] fix: writing an empty vector dereferenced it, and
 writing nothing to a file was reported as an error

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1661455..c466aef 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -82,7 +82,7 @@ sys_buffer_writer* sys_byte_buffer_writer::write(f64 val) {
 }
 
 sys_buffer_writer* sys_byte_buffer_writer::write(const vector<u8>& buffer) {
-	u8* start = (u8*)&buffer[0];
+	u8* start = (u8*)buffer.data();
 	u8* stop = start + (i32)buffer.size();
 
 	return write(start, stop);
@@ -324,7 +324,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (m_file == NULL || fwrite(start, stop - start, 1, m_file) != 1) {
+	if (m_file == NULL || fwrite(start, sizeof(u8), stop - start, m_file) != (size_t)(stop - start)) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From 7e8385b36656986ce4f5621798fb5cdcf0cefce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 032/206] fix: json reader: whether a node is loaded was never
 initialised

---
 basicsys/src/sys_json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 64948d8..9753b74 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -421,6 +421,7 @@ sys_json_reader::sys_json_reader(sys_buffer_reader* reader, const string& node_n
 	m_offset = offset;
 	m_size = size;
 	m_node_type = node_type;
+	m_loaded = sys_false;
 
 	if (m_size == -1) {
 		m_size = (i32)reader->remain_size();
-- 
2.43.0


From 0f37ad5cbefb6da497f20e362f623c46a6ec5ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 033/206] fix: json reader: asking for a missing name or index
 crashed instead of only reporting the error

---
 basicsys/src/sys_json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 9753b74..6e6ab9e 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -666,7 +666,10 @@ sys_json_reader sys_json_reader::operator[](const string& node_name) const {
 
 	map<string, sys_json_reader>::const_iterator iter = m_map_nodes.find(node_name);
 
-	basiclog_assert2(iter != m_map_nodes.end());
+	if (iter == m_map_nodes.end()) {
+		basiclog_assert2(sys_false);
+		return sys_json_reader(m_reader, node_name, m_offset, 0, sys_Node_Type_Text);
+	}
 
 	return iter->second;
 }
@@ -688,6 +691,11 @@ sys_json_reader sys_json_reader::operator[](const i32 index) const {
 
 	basiclog_assert2(m_node_type == sys_Json_Envrionment_Seq);
 
+	if (index < 0 || index >= (i32)m_seq_nodes.size()) {
+		basiclog_assert2(sys_false);
+		return sys_json_reader(m_reader, "", m_offset, 0, sys_Node_Type_Text);
+	}
+
 	return m_seq_nodes[index];
 }
 
-- 
2.43.0


From a053d084273688e5485130783ccdaecc413e66ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 034/206] fix: json reader: a text file cut inside brackets
 made it loop or return made-up nodes

---
 basicsys/src/sys_json.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 6e6ab9e..c798de9 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -730,7 +730,7 @@ void sys_json_reader::load() {
 
 	m_loaded = true;
 
-	if (m_size == 0) {
+	if (m_size <= 0) {
 		return;
 	}
 
@@ -747,6 +747,11 @@ void sys_json_reader::text_load_struct_info() {
 	string text;
 	m_reader->read_str(text, m_size);
 
+	if ((i32)text.size() != m_size) {
+		basiclog_assert2(sys_false);
+		return;
+	}
+
 	if (m_node_type == sys_Json_Envrionment_Seq) {
 		i32 valid_index = (i32)text.find_first_not_of('\t');
 
@@ -765,7 +770,12 @@ void sys_json_reader::text_load_struct_info() {
 					node_data_start_index += 2;  //need skip { or [, and \n	
 
 					i32 node_data_stop_index = find_match_character(text, first_character, node_data_start_index);
-					basiclog_assert2(node_data_stop_index != -1);
+
+					if (node_data_stop_index == -1) {
+						basiclog_assert2(sys_false);
+						break;
+					}
+
 					basiclog_assert2(node_data_stop_index == (i32)text.size() - 1 || text[node_data_stop_index + 1] == L'\n');
 
 					//basiclog_info2(text.substr(node_data_start_index, node_data_stop_index - node_data_start_index));
@@ -804,6 +814,7 @@ void sys_json_reader::text_load_struct_info() {
 			int node_name_end_index = (i32)text.find(L':', last_index);
 
 			if (node_name_end_index == -1) {
+				basiclog_assert2(text.find_first_not_of('\t', last_index) == string::npos);
 				break;
 			}
 
@@ -818,6 +829,12 @@ void sys_json_reader::text_load_struct_info() {
 			if (first_node_data_character == '{' || first_node_data_character == '[') {
 				node_data_start_index += 2;
 				node_data_stop_index = find_match_character(text, first_node_data_character, node_data_start_index); //context between {\n } or [\n ]
+
+				if (node_data_stop_index == -1) {
+					basiclog_assert2(sys_false);
+					break;
+				}
+
 				node_type = first_node_data_character == '{' ? sys_Node_Type_Map : sys_Node_Type_Seq;
 				last_index = node_data_stop_index + 2; //need skip } or ], and \n		
 			} else {
-- 
2.43.0


From b3690cf579c5858629d336686b5d03218b4f96e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 035/206] fix: json reader: a cut or damaged binary file made
 it loop for ever or read outside the file, and an empty string was reported
 as an error

---
 basicsys/src/sys_json.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index c798de9..a95806b 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -869,15 +869,13 @@ void sys_json_reader::binary_load_struct_info() {
 		while (reader->position() < data_end) {
 
 			u8 node_type = reader->read_u8();
-
-			basiclog_assert2(is_valid_node_type(node_type));
-
 			i32 node_data_size = reader->read_i32();
 
-			//if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
-			//	basiclog_assert2(node_data_size > 0);
-			//}
-			
+			if (reader->get_status() != sys_IO_Status_OK || !is_valid_node_type(node_type) || node_data_size < 0 || node_data_size > data_end - reader->position()) {
+				basiclog_assert2(sys_false);
+				break;
+			}
+
 			sys_json_reader node(reader, "", reader->position(), node_data_size, node_type);
 			m_seq_nodes.push_back(node);
 
@@ -890,16 +888,19 @@ void sys_json_reader::binary_load_struct_info() {
 
 			//basiclog_info2(reader->position());
 
+			if (reader->get_status() != sys_IO_Status_OK || node_name_size < 0 || node_name_size > data_end - reader->position()) {
+				basiclog_assert2(sys_false);
+				break;
+			}
+
 			string node_name = reader->read_str(node_name_size);
 
 			u8 node_type = reader->read_u8();
-
-			basiclog_assert2(is_valid_node_type(node_type));
-
 			i32 node_data_size = reader->read_i32();
 
-			if (node_type != sys_Node_Type_Map && node_type != sys_Node_Type_Seq) {
-				basiclog_assert2(node_data_size > 0);
+			if (reader->get_status() != sys_IO_Status_OK || !is_valid_node_type(node_type) || node_data_size < 0 || node_data_size > data_end - reader->position()) {
+				basiclog_assert2(sys_false);
+				break;
 			}
 
 			sys_json_reader node(reader, node_name, reader->position(), node_data_size, node_type);
-- 
2.43.0


From 38fff4caac0d68b67a28f44e7cdfc54f96ba6ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 036/206] fix: json writer: an i8 was written to text as a
 character, which is not what is read back

---
 basicsys/src/sys_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index a95806b..e39ec92 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -72,7 +72,7 @@ sys_json_writer& sys_json_writer::operator<<(const i8& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strcombine()<<(i32)val);
 	} else {
 		m_writer->write(sys_Node_Type_Int);
 		m_writer->write((i32)sizeof(i8));
-- 
2.43.0


From c78fb4f9a0fa5029f418523c015db1c8e1a26ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 037/206] fix: json writer: floating-point numbers lost digits
 in text (small ones became zero)

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index e39ec92..396a20f 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -198,7 +198,7 @@ sys_json_writer& sys_json_writer::operator<<(const f32& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.9g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f32));
@@ -216,7 +216,7 @@ sys_json_writer& sys_json_writer::operator<<(const f64& val) {
 	basiclog_assert2(m_json_expected == sys_Json_Expected_Value);
 
 	if (m_writer->is_string_buffer()) {
-		text_write_str(sys_strcombine()<<val);
+		text_write_str(sys_strhelper::combine("%.17g", val));
 	} else {
 		m_writer->write(sys_Node_Type_Real);
 		m_writer->write((i32)sizeof(f64));
-- 
2.43.0


From 1c728d30d602ccdda0de2cb6bee41b43bfa98f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 038/206] fix: json reader: 64-bit integers were read through a
 double and lost digits, large unsigned ones were cut off in text

---
 basicsys/src/sys_json.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 396a20f..247d169 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -577,10 +577,10 @@ void sys_json_reader::operator>>(u64& val) const {
 
 		basiclog_assert2(!text.empty());
 
-		val = (u64)_atoi64(text.c_str());
+		val = (u64)strtoull(text.c_str(), NULL, 10);
 
 	} else {
-		f64 tmp = 0;
+		i64 tmp = 0;
 		(*this)>>tmp;
 
 		val = (u64)tmp;
@@ -597,6 +597,12 @@ void sys_json_reader::operator>>(i64& val) const {
 		val = _atoi64(text.c_str());
 
 	} else {
+		if (m_node_type == sys_Node_Type_Int && m_size == sizeof(i64)) {
+			m_reader->seek(m_offset, sys_File_Seek_Set);
+			val = m_reader->to_byte_buffer_reader()->read_i64();
+			return;
+		}
+
 		f64 tmp = 0;
 		(*this)>>tmp;
 
-- 
2.43.0


From c746412498798898da064e31b0a23066069cfa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 039/206] fix: json writer: a map or sequence whose writing was
 interrupted looked like an empty one

---
 basicsys/src/sys_json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 247d169..62ec64e 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -319,7 +319,8 @@ void sys_json_writer::pre_process_map_seq(u8 type) {
 	m_data_size_positions.push_back(m_writer->position());
 
 	//fseek(m_file, sizeof(int), SEEK_CUR);
-	m_writer->write((i32)0);
+	//a size that is never filled in, because of a crash, must not look like an empty map or seq
+	m_writer->write((i32)-1);
 }
 
 void sys_json_writer::post_process_map_seq() {
-- 
2.43.0


From 6499e7952cb6ab63a256b846abf2e658b2866483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 040/206] fix: json reader: empty strings at the beginning of a
 text sequence were lost

---
 basicsys/src/sys_json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index 62ec64e..bbf5200 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -794,7 +794,11 @@ void sys_json_reader::text_load_struct_info() {
 				}
 			} else {
 				//must be element!
-				int last_index = valid_index;
+				//the elements are indented by one tab more than the ']', further tabs separate empty strings
+				i32 last_line_index = (i32)text.rfind('\n');
+				i32 indent = (i32)text.size() - last_line_index;
+
+				int last_index = min(valid_index, indent);
 				for (i32 i = last_index; i < (i32)text.size(); ++i) {
 					if (text.at(i) == '\t' || text.at(i) == '\n') {
 						//basiclog_assert2(i > last_index);
-- 
2.43.0


From b0a7ab49d6579e8aafdd73a90f840dc8fdf00532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 041/206] fix: json reader: a text cut right behind a name was
 read as an empty value

---
 basicsys/src/sys_json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index bbf5200..e86aa8d 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -835,6 +835,11 @@ void sys_json_reader::text_load_struct_info() {
 			int node_data_start_index = node_name_end_index + 1;
 			int node_data_stop_index;
 
+			if (node_data_start_index >= (i32)text.size()) {
+				basiclog_assert2(sys_false);
+				break;
+			}
+
 			i8 first_node_data_character = text[node_data_start_index];
 
 			if (first_node_data_character == '{' || first_node_data_character == '[') {
-- 
2.43.0


From c55eb636905f1609c3bdda9dc82134d2cac8cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 042/206] fix: mat: loading a cut or damaged mat wrote outside
 its memory, left elements uninitialised or crashed

---
 basicmath/src/mt_data_type.cpp     |  6 +++-
 basicmath/src/mt_mat_serialize.cpp | 49 +++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/basicmath/src/mt_data_type.cpp b/basicmath/src/mt_data_type.cpp
index aca4984..fdc4b7d 100644
--- a/basicmath/src/mt_data_type.cpp
+++ b/basicmath/src/mt_data_type.cpp
@@ -66,11 +66,15 @@ mt_Depth_Channel mt_Depth_Channel::depth_channel_i32(const string& depth_channel
 	sys_strhelper::split(elements, depth_channel, "C");
 
 	i32 channel = 1;
-	mt_Depth depth = depth_i32(elements[0]);
+	mt_Depth depth = elements.empty() ? mt_User : depth_i32(elements[0]);
 
 	if ((i32)elements.size() > 1) {
 		channel = atoi(elements[1].c_str());
 	}
 
+	if (channel < 1 || channel - 1 > (mt_Channel_Mask >> 16)) {
+		return mt_Depth_Channel(mt_User);
+	}
+
 	return mt_Depth_Channel(depth, channel);
 }
diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 37fa702..8583d4d 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -270,16 +270,18 @@ namespace basicmath {
 	}
 
 	template<class T>
-	static void read_data_impl(u8* mat_data, const basicsys::sys_json_reader& reader) {
+	static void read_data_impl(mt_mat& data, const vector<i32>& sizes, mt_Depth_Channel depth_channel, i64 value_number, const basicsys::sys_json_reader& reader) {
 		vector<T> buffer;
 
 		reader["data"]>>buffer;
 
-		T* ptr_mat_data = (T*)mat_data;
-
-		for (i32 i = 0; i < (i32)buffer.size(); ++i) {
-			ptr_mat_data[i] = buffer[i];
+		if ((i64)buffer.size() != value_number) {
+			basiclog_error2(sys_strcombine()<<"a stored mat needs "<<value_number<<" values, but "<<(i64)buffer.size()<<" were read");
+			return;
 		}
+
+		data = mt_mat(sizes, depth_channel);
+		memcpy(data.data(), &buffer[0], sizeof(T) * buffer.size());
 	}
 
 	void read(mt_mat& data, const basicsys::sys_json_reader& reader) {
@@ -290,38 +292,51 @@ namespace basicmath {
 			data = mt_mat();
 		} else {
 			mt_Depth_Channel depth_channel = mt_Depth_Channel::depth_channel_i32(reader["depth_channel"].to_string());
-			data = mt_mat((i32)sizes.size(), &sizes[0], depth_channel);
+			data = mt_mat();
+
+			b8 valid = depth_channel.depth() != mt_User;
+			i64 value_number = depth_channel.channel();
+
+			for (i32 i = 0; i < (i32)sizes.size() && valid; ++i) {
+				value_number *= sizes[i];
+				valid = sizes[i] > 0 && value_number * depth_channel.depth_size() <= mt_I32_Max;
+			}
+
+			if (!valid) {
+				basiclog_error2("a stored mat has an invalid size or type");
+				return;
+			}
 
-			switch (data.depth()) {
+			switch (depth_channel.depth()) {
 			case mt_I8:
-				read_data_impl<i8>(data.data(), reader);
+				read_data_impl<i8>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_U8:
-				read_data_impl<u8>(data.data(), reader);
+				read_data_impl<u8>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_I16:
-				read_data_impl<i16>(data.data(), reader);
+				read_data_impl<i16>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_U16:
-				read_data_impl<u16>(data.data(), reader);
+				read_data_impl<u16>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_I32:
-				read_data_impl<i32>(data.data(), reader);
+				read_data_impl<i32>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_U32:
-				read_data_impl<u32>(data.data(), reader);
+				read_data_impl<u32>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_I64:
-				read_data_impl<i64>(data.data(), reader);
+				read_data_impl<i64>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_U64:
-				read_data_impl<u64>(data.data(), reader);
+				read_data_impl<u64>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_F32:
-				read_data_impl<f32>(data.data(), reader);
+				read_data_impl<f32>(data, sizes, depth_channel, value_number, reader);
 				break;
 			case mt_F64:
-				read_data_impl<f64>(data.data(), reader);
+				read_data_impl<f64>(data, sizes, depth_channel, value_number, reader);
 				break;
 			}
 		}
-- 
2.43.0


From d627cb0a8e5b58134b8be0a572cc05f39ced330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:02 +0000
Subject: [PATCH 043/206] fix: mat: saving an empty mat raised an error about
 its depth

---
 basicmath/src/mt_mat_serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 8583d4d..ee6f251 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -229,7 +229,7 @@ namespace basicmath {
 
 		writer<<"]";
 
-		writer<<"depth_channel"<<mt_Depth_Channel::depth_channel_str(data.depth_channel());
+		writer<<"depth_channel"<<(data.is_empty() ? string() : mt_Depth_Channel::depth_channel_str(data.depth_channel()));
 		writer<<"data"<<"[";
 
 		switch (data.depth()) {
-- 
2.43.0


From 1b3c29c91d0b9f5983215e6461d08ac9e34a9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 044/206] fix: mat: the sizes and steps of mats with more than
 4 dimensions were written to no or too small memory

---
 basicmath/src/mt_mat.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..efe0bc4 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1113,7 +1113,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -2076,6 +2076,7 @@ void mt_mat::operator =(const mt_mat& other) {
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2355,6 +2356,11 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	res.m_dims = m_dims - combined_dim_count + 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2574,7 +2580,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2606,6 +2612,11 @@ mt_mat mt_mat::last_dim_as_channel() const {
 	mt_mat res;
 	res.m_dims = m_dims - 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2726,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
-- 
2.43.0


From c43d8eecfaf348af321d44cf9cb971e7ad05d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 045/206] fix: mat: slicing a mat with more than 4 dimensions
 read the ranges after releasing them

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index efe0bc4..9059ce9 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2788,8 +2788,11 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From eb78f8c5b5a86bf7151b24fae2d914e853ef9d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 046/206] fix: mat: flipping some dimensions read uninitialised
 flags for the others

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 9059ce9..957dfb3 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2520,7 +2520,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From ff638626731f82e26fce8578344f3dc5e876737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 047/206] fix: mat: combining dimensions of a slice returned
 elements from outside the slice

---
 basicmath/src/mt_mat.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 957dfb3..3cec2e9 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2339,12 +2339,22 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
 	bool order_dim = true;
+	int combined_size = 1;
+	int combined_step = step()[combined_dim_start + combined_dim_count - 1];
 
-	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+	for (int i = combined_dim_start + combined_dim_count - 1; i >= combined_dim_start; --i) {
+		if (size()[i] == 1) {
+			continue;
+		}
+
+		if (combined_size == 1) {
+			combined_step = step()[i];
+		} else if (step()[i] != combined_step * combined_size) {
 			order_dim = false;
 			break;
 		}
+
+		combined_size *= size()[i];
 	}
 
 	if (!order_dim) {
@@ -2372,7 +2382,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 		res.size()[combined_dim_start] *= size()[combined_dim_start + i];
 	}
 
-	res.step()[combined_dim_start] = step()[combined_dim_start + combined_dim_count - 1];
+	res.step()[combined_dim_start] = combined_step;
 
 	for (int i = combined_dim_start + 1; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i + combined_dim_count - 1];
-- 
2.43.0


From 3d80607366e7037100e971a5938504d83923fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 048/206] fix: mat: memory given to a mat through most of its
 constructors was never released

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 3cec2e9..5a7ea80 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From 7cb7329cb8513a533e8686687b0593d961495006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 049/206] fix: mat: setting a mat from one of another depth
 read its elements as if they had the own depth

---
 basicmath/src/mt_mat.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 5a7ea80..4578042 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1520,7 +1520,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 		}
 	} else {
 		if (depth() == mt_U8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u8, u8>(*this, other);
 				break;
@@ -1556,7 +1556,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I8) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i8, u8>(*this, other);
 				break;
@@ -1592,7 +1592,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u16, u8>(*this, other);
 				break;
@@ -1628,7 +1628,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I16) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i16, u8>(*this, other);
 				break;
@@ -1664,7 +1664,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u32, u8>(*this, other);
 				break;
@@ -1700,7 +1700,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i32, u8>(*this, other);
 				break;
@@ -1736,7 +1736,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_U64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<u64, u8>(*this, other);
 				break;
@@ -1772,7 +1772,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_I64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<i64, u8>(*this, other);
 				break;
@@ -1808,7 +1808,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F32) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f32, u8>(*this, other);
 				break;
@@ -1844,7 +1844,7 @@ mt_mat& mt_mat::set(const mt_mat& other) {
 				break;
 			}
 		} else if (depth() == mt_F64) {
-			switch (depth()) {
+			switch (other.depth()) {
 			case mt_U8:
 				private_mat::set<f64, u8>(*this, other);
 				break;
-- 
2.43.0


From 6375f7ad495081bd0b7b3d5ebd3509b59ef762a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 050/206] fix: mat: comparing mats that are not continuous
 ignored rows of 3-d and everything of 4-d mats

---
 basicmath/src/mt_array_iteration.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_array_iteration.cpp b/basicmath/src/mt_array_iteration.cpp
index e309d43..6bd9d01 100644
--- a/basicmath/src/mt_array_iteration.cpp
+++ b/basicmath/src/mt_array_iteration.cpp
@@ -54,8 +54,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -124,8 +124,8 @@ namespace basicmath {
 					const u8* ptr_src_data_dim1 = ptr_src_data_dim0;
 
 					for (i32 row = 0; row < sizes[1]; ++row) {
-						ptr_dst_data = ptr_dst_data_dim0;
-						ptr_src_data = ptr_src_data_dim0;
+						ptr_dst_data = ptr_dst_data_dim1;
+						ptr_src_data = ptr_src_data_dim1;
 
 						for (i32 col = 0; col < sizes[2]; ++col) {
 							for (i32 c = 0; c < element_size; ++c) {
@@ -187,16 +187,17 @@ b8 mt_array_iteration::array_iteration(u8* dst, const u8* src, int ndims, const
 	int max_continuous_dim = max(src_continuous_dim, dst_continuous_dim);
 
 	if (max_continuous_dim != 0) {
-		if (ndims <= 4) {
+		if (ndims <= 3) {
 			if (type == mt_Array_Copy) {
 				private_array_iteration::memcpy(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
+				return sys_true;
 			} else {
 				return private_array_iteration::memcmp(dst, src, ndims, sizes, dst_steps, src_steps, element_size);
 			}
 		}		
 	}
 
-	if (mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
+	if (max_continuous_dim < ndims && mt_helper::is_same_symbol(src_steps[max_continuous_dim], dst_steps[max_continuous_dim])) {
 		mt_array_memory_block_const_iterator src_iteartor(src, ndims, sizes, src_steps, max_continuous_dim, element_size);
 		mt_array_memory_block_iterator dst_iteartor(dst, ndims, sizes, dst_steps, max_continuous_dim, element_size);
 
-- 
2.43.0


From d15b5c3d39cd72834a6b2a5c0a11b6b849556290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 051/206] fix: mat: setting a 3-d slice with more than 4
 channels wrote to the wrong elements, some outside the mat

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 4578042..d6d56b2 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -478,9 +478,9 @@ namespace basicmath {
 
 								for (int c = 0; c < channels; ++c) {
 									ptr_data[c] = assign_values[c];
-
-									ptr_data += last_step;
 								}
+
+								ptr_data += last_step;
 							}
 
 							ptr_dim1 += mat.step()[1];
-- 
2.43.0


From 176f826e102218abb85c7cbbb5174b4a4ab3cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 052/206] fix: mat: reshaping a flipped mat referred to memory
 outside of it

---
 basicmath/src/mt_mat.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index d6d56b2..aed44ce 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2234,6 +2234,12 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 		basiclog_assert2(current_total_size == reshape_total_size);
 	}
 
+	b8 flipped = step()[m_dims - 1] < 0;
+
+	if (flipped && new_channel != -1 && new_channel != channel()) {
+		return clone().reshape(dims, sizes, new_channel);
+	}
+
 	mt_mat res;
 	res.m_dims = dims;
 
@@ -2264,6 +2270,12 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	res.fill_auto_step();
 
+	if (flipped) {
+		for (int i = 0; i < res.m_dims; ++i) {
+			res.step()[i] = -res.step()[i];
+		}
+	}
+
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
-- 
2.43.0


From a389605241cac62508c16a6e7efb83dbfbf8bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 053/206] fix: mat cache: the lock was released before the
 cache was used

---
 basicmath/src/mt_mat_cache.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index 99c500b..df292d2 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -28,7 +28,7 @@ mt_mat_cache::~mt_mat_cache() {
 
 void mt_mat_cache::set_memory_size(i64 memory_size) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		s_mat_cache.m_memory_size = memory_size;
 
 		s_mat_cache.statistic_memory();
@@ -45,7 +45,7 @@ void mt_mat_cache::output_cache_statistic() {
 
 void mt_mat_cache::enable_cache(b8 enable) {
 	{
-		sys_thread_lock (s_mat_cache.m_mutex);
+		sys_thread_lock lock(s_mat_cache.m_mutex);
 		map<u64, thread_data>::iterator td = s_mat_cache.m_thread_data.find(sys_os::current_thread_id());
 
 		if (td == s_mat_cache.m_thread_data.end()) {
@@ -76,8 +76,6 @@ mt_mat mt_mat_cache::get(const vector<i32>& sizes, mt_Depth_Channel depth_channe
 }
 
 mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_channel) {
-	thread_data* data = NULL;
-	
 	{
 		sys_thread_lock lock(m_mutex);
 
@@ -85,13 +83,7 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 
 		map<u64, thread_data>::iterator td = m_thread_data.find(sys_os::current_thread_id());
 
-		if (td != m_thread_data.end()) {
-			data = &td->second;
-		}
-	}
-
-	if (data != NULL) {
-		if (data->m_enable) {
+		if (td != m_thread_data.end() && td->second.m_enable) {
 			for (i32 i = 0; i < (int)m_caches.size(); ++i) {
 				if (m_caches[i].reference_number() == 1 && m_caches[i].depth_channel() == depth_channel && m_caches[i].dim() == dim) {
 					b8 same_size = sys_true;
-- 
2.43.0


From 4a2a177c6d7f3e9126b42221c6a76479b1d83c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 054/206] fix: mat cache: the memory limit was not enforced
 above 2 GB

---
 basicmath/src/mt_mat_cache.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_cache.cpp b/basicmath/src/mt_mat_cache.cpp
index df292d2..07c2f81 100644
--- a/basicmath/src/mt_mat_cache.cpp
+++ b/basicmath/src/mt_mat_cache.cpp
@@ -119,11 +119,11 @@ mt_mat mt_mat_cache::get(i32 dim, const i32* sizes, mt_Depth_Channel depth_chann
 }
 
 void mt_mat_cache::statistic_memory() {
-	i32 total_memory = 0;
-	i32 used_memory = 0;
+	i64 total_memory = 0;
+	i64 used_memory = 0;
 
 	for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-		i32 cur_memory = m_caches[i].element_size() * m_caches[i].element_number();
+		i64 cur_memory = (i64)m_caches[i].element_size() * m_caches[i].element_number();
 
 		if (m_caches[i].reference_number() > 1) {
 			used_memory += cur_memory;
@@ -135,13 +135,13 @@ void mt_mat_cache::statistic_memory() {
 	if (total_memory > m_memory_size && total_memory > used_memory * 2) {
 		basiclog_info2(sys_strcombine()<<", begin release memory in mt_mat_cache, before total memory: "<<total_memory<<", used memory: "<<used_memory);
 
-		i32 retain_memory = used_memory * 2;
+		i64 retain_memory = used_memory * 2;
 
 		vector<mt_mat>::iterator iter = m_caches.begin();
 
 		while (iter != m_caches.end()) {
 			if (iter->reference_number() == 1) {
-				i32 cur_memory = iter->element_size() * iter->element_number();
+				i64 cur_memory = (i64)iter->element_size() * iter->element_number();
 				iter = m_caches.erase(iter);
 				total_memory -= cur_memory;
 
-- 
2.43.0


From e2b1ff720ca077e77a8c3f78d8a852bb4820465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 055/206] fix: path: deleting a directory left everything in
 its subdirectories

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index d93ac39..0490711 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -394,8 +394,8 @@ void sys_path::delete_sub_dir(const string& dir) {
 	vector<string> subDirs;
 	get_dir_path(subDirs, dir);
 
-	for (int i = 0; i < (int)subFiles.size(); ++i) {
-		delete_dir(subFiles[i], true);
+	for (int i = 0; i < (int)subDirs.size(); ++i) {
+		delete_dir(subDirs[i], true);
 	}
 }
 
-- 
2.43.0


From ae19bb7d7a8b9cf6dc38f1cc8cbdba5f138c7440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 056/206] fix: path: blanks and other characters of the paths
 to copy were interpreted by the shell

---
 basicsys/src/sys_path.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 0490711..8bc00cd 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -425,11 +425,28 @@ string sys_path::get_system_temp_dir() {
 
 }
 
+#ifndef _WIN32
+// The shell takes everything between single quotes as it is.
+static string quote_for_shell(const string& path) {
+	string quoted = "'";
+
+	for (string::size_type i = 0; i < path.size(); ++i) {
+		if (path[i] == '\'') {
+			quoted += "'\\''";
+		} else {
+			quoted += path[i];
+		}
+	}
+
+	return quoted + "'";
+}
+#endif
+
 bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exist) {
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
-	return system(((string)(sys_strcombine()<<"cp -r "<<src.c_str()<<" "<<dst.c_str())).c_str()) == 0;
+	return system(((string)(sys_strcombine()<<"cp -r -- "<<quote_for_shell(src)<<" "<<quote_for_shell(dst))).c_str()) == 0;
 #endif
 }
 
-- 
2.43.0


From 13bc066996db73f6c96ab45bd469a7274c483756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 057/206] fix: path: copying overwrote an existing destination
 although told to fail

---
 basicsys/src/sys_path.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 8bc00cd..07cff66 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -446,6 +446,10 @@ bool sys_path::copy_file(const string& dst, const string& src, bool fail_if_exis
 #ifdef _WIN32
 	return ::CopyFileA(src.c_str(), dst.c_str(), fail_if_exist) == TRUE;
 #else
+	if (fail_if_exist && is_exist(dst)) {
+		return false;
+	}
+
 	return system(((string)(sys_strcombine()<<"cp -r -- "<<quote_for_shell(src)<<" "<<quote_for_shell(dst))).c_str()) == 0;
 #endif
 }
-- 
2.43.0


From 34fd86b92b2465e16f4e65d3ef4c79b33fad8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 058/206] fix: path: creating a directory failed if another
 thread created it at the same time

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 07cff66..2872837 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -332,7 +332,8 @@ bool sys_path::create_multi_dir(const string& dir) {
 			if (!CreateDirectoryA(szTemp, NULL))
 				return false;
 #else
-			if (mkdir(szTemp, 0000777) != 0)
+			// Somebody else may have made it meanwhile.
+			if (mkdir(szTemp, 0000777) != 0 && _access(szTemp, 0) == -1)
 				return false;
 #endif
 		}
@@ -345,7 +346,7 @@ bool sys_path::create_multi_dir(const string& dir) {
 		if (!CreateDirectoryA(dir.c_str(), NULL))
 			return false;
 #else
-		if (mkdir(dir.c_str(), 0000777) != 0)
+		if (mkdir(dir.c_str(), 0000777) != 0 && _access(dir.c_str(), 0) == -1)
 			return false;
 #endif
 	}
-- 
2.43.0


From f248c6bb6108b2f9c2fd8fa91451122110dd6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 059/206] fix: path: listing by extension missed names that
 contain it twice and took names shorter than it

---
 basicsys/src/sys_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 2872837..b2bbe86 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -91,7 +91,7 @@ void sys_path::get_file_path(vector<string>& filePaths, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
@@ -163,7 +163,7 @@ void sys_path::get_file_name(vector<string>& fileNames, const string& dirPath, c
 
 		string s_name(entry->d_name);
 
-		if (!expandName.empty() && (i32)s_name.find(expandName) != (i32)s_name.size() - (i32)expandName.size()) {
+		if (s_name.size() < expandName.size() || s_name.compare(s_name.size() - expandName.size(), expandName.size(), expandName) != 0) {
 			continue;
 		}
 
-- 
2.43.0


From 9024916b2786b889812835dcfc15dc9d95836ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 060/206] fix: path: creating a directory whose path is 1024 or
 more characters long wrote past a buffer

---
 basicsys/src/sys_path.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index b2bbe86..3891a4a 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -321,19 +321,17 @@ bool sys_path::create_multi_dir(const string& dir) {
 	if (_access(dir.c_str(), 0) == 0)
 		return true;
 
-	char szTemp[1024] = {('\0')};
 	string::size_type nPos = dir.find(('/'));
 	while (string::npos != nPos)
 	{
-		strncpy_s(szTemp, 1024, dir.c_str(), nPos + 1);
-		szTemp[nPos + 1] = '\0';
-		if (_access(szTemp, 00) == -1) {
+		string parent = dir.substr(0, nPos + 1);
+		if (_access(parent.c_str(), 00) == -1) {
 #ifdef _WIN32
-			if (!CreateDirectoryA(szTemp, NULL))
+			if (!CreateDirectoryA(parent.c_str(), NULL))
 				return false;
 #else
 			// Somebody else may have made it meanwhile.
-			if (mkdir(szTemp, 0000777) != 0 && _access(szTemp, 0) == -1)
+			if (mkdir(parent.c_str(), 0000777) != 0 && _access(parent.c_str(), 0) == -1)
 				return false;
 #endif
 		}
-- 
2.43.0


From d6b954a19a983f869b934ad3b0ffc8ae32918af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 061/206] fix: timer: costs went wrong, even negative, and
 ticks ran backwards when the system time was set

---
 basicsys/src/sys_timer.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/basicsys/src/sys_timer.cpp b/basicsys/src/sys_timer.cpp
index 786c1ed..eb7256c 100644
--- a/basicsys/src/sys_timer.cpp
+++ b/basicsys/src/sys_timer.cpp
@@ -20,7 +20,14 @@ public:
 static auto_init_detector s_init_helper;
 
 #else
-#include <sys/time.h>
+#include <time.h>
+
+// Counts on whatever happens to the system time.
+static i64 steady_microseconds() {
+	struct timespec ts;
+	clock_gettime(CLOCK_MONOTONIC, &ts);
+	return (i64)ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
+}
 #endif
 
 
@@ -48,9 +55,7 @@ void sys_timer::begin() {
 #ifdef _WIN32
 	QueryPerformanceCounter((LARGE_INTEGER*)&m_begin);
 #else
-	struct timeval tv;
-	gettimeofday(&tv, NULL);
-	m_begin = tv.tv_sec * 1000000 + tv.tv_usec;
+	m_begin = steady_microseconds();
 #endif
 	++m_count;
 }
@@ -61,9 +66,7 @@ void sys_timer::end() {
 	QueryPerformanceCounter((LARGE_INTEGER*)&endTimer);
 	m_cost += int((endTimer - m_begin) * 1000 / m_freq);
 #else
-	struct timeval tv;
-	gettimeofday(&tv, NULL);
-	endTimer = tv.tv_sec * 1000000 + tv.tv_usec;
+	endTimer = steady_microseconds();
 	m_cost += (endTimer - m_begin) / 1000;
 #endif // _WIN32
 
@@ -91,8 +94,6 @@ i64 sys_timer::get_tick_cout() {
 	QueryPerformanceCounter((LARGE_INTEGER*)&tick);
 	return tick * 1000 / s_detector_freq;
 #else
-	struct timeval tv;
-	gettimeofday(&tv, NULL);
-	return (tv.tv_sec * 1000000 + tv.tv_usec) / 1000;
+	return steady_microseconds() / 1000;
 #endif
 }
\ No newline at end of file
-- 
2.43.0


From 53ecbe75712a8ed3e556b553ec367ffe04f68cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 062/206] fix: timer: each begin/end pair lost up to a
 millisecond of its cost

---
 basicsys/include/sys_timer.h | 2 +-
 basicsys/src/sys_timer.cpp   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/basicsys/include/sys_timer.h b/basicsys/include/sys_timer.h
index 3316ba7..4c982c9 100644
--- a/basicsys/include/sys_timer.h
+++ b/basicsys/include/sys_timer.h
@@ -25,7 +25,7 @@ namespace basicsys {
 	private:
 
 		string m_name;
-		i32 m_cost;
+		i64 m_cost;	// microseconds
 		i32 m_count;
 		b8 m_auto_out_cost;
 		b8 m_debug_auto_out;
diff --git a/basicsys/src/sys_timer.cpp b/basicsys/src/sys_timer.cpp
index eb7256c..a310b86 100644
--- a/basicsys/src/sys_timer.cpp
+++ b/basicsys/src/sys_timer.cpp
@@ -64,16 +64,16 @@ void sys_timer::end() {
 	i64 endTimer;
 #ifdef _WIN32
 	QueryPerformanceCounter((LARGE_INTEGER*)&endTimer);
-	m_cost += int((endTimer - m_begin) * 1000 / m_freq);
+	m_cost += (endTimer - m_begin) * 1000000 / m_freq;
 #else
 	endTimer = steady_microseconds();
-	m_cost += (endTimer - m_begin) / 1000;
+	m_cost += endTimer - m_begin;
 #endif // _WIN32
 
 }
 
 void sys_timer::out(b8 debug_output) {
-	string info = sys_strhelper::combine(("%s cost %d ms, count = %d"), m_name.c_str(), m_cost, m_count);
+	string info = sys_strhelper::combine(("%s cost %d ms, count = %d"), m_name.c_str(), get_cost(), m_count);
 
 	if (debug_output) {
 		basiclog_debug2(info);
@@ -84,7 +84,7 @@ void sys_timer::out(b8 debug_output) {
 }
 
 int sys_timer::get_cost() const {
-	return (int)m_cost;
+	return (int)(m_cost / 1000);
 }
 
 
-- 
2.43.0


From 195cc65d6e050bccdcb8d9afcbfdb64d7828dff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 063/206] fix: mser: CV-MSER overran its pixel heap when only
 bright regions were extracted

---
 basicimg/src/img_opencv3_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index d82d04d..8e6017b 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -387,7 +387,7 @@ void img_opencv3_mser::preprocess( const mt_mat& img, int* level_size, u8 mask)
 			pptr[0] = pptr[cols-1] = borderpix;
 			for( j = 1; j < cols-1; j++ )
 			{
-				int val = imgptr[j];
+				int val = imgptr[j] ^ mask;
 				level_size[val]++;
 				pptr[j].val = 0;
 			}
-- 
2.43.0


From d9c43a8ba60f89e37916ba6302731085338b1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 064/206] fix: mser: CV-MSER, VF-MSER and ID-MSER wrote into
 the image of the previous call

---
 basicimg/src/img_idiap_mser.cpp   | 1 +
 basicimg/src/img_opencv3_mser.cpp | 1 +
 basicimg/src/img_vlfeat_mser.cpp  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index c924dac..5fd7445 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -237,6 +237,7 @@ void img_idiap_mser::mser_region::detect(i32 delta, i32 minArea, i32 maxArea, f3
 
 void img_idiap_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	if (!src.is_continuous()) {
+		m_src = mt_mat();	//it may share the image of the previous call
 		m_src.copy_from(src);
 
 		basiclog_assert2(sys_false);
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 8e6017b..6aa82ed 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -218,6 +218,7 @@ void img_opencv3_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8
 	mt_mat temp = src;
 
 	if (!temp.is_continuous()) {
+		m_tempsrc = mt_mat();	//it may share the image of the previous call
 		m_tempsrc.copy_from(temp);
 		temp = m_tempsrc;
 	} else {
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 9f0ab70..0014d2a 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -2353,6 +2353,7 @@ void mser_recogniztion(MserFilt* f) {
 
 void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	if (!src.is_continuous()) {
+		m_src = mt_mat();	//it may share the image of the previous call
 		m_src.copy_from(src);
 	} else {
 		m_src = src;
-- 
2.43.0


From 23ea29a1a07063ce95eb7267931056cefdcf389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 065/206] fix: mser: VF-MSER leaked its buffers whenever it was
 used again

---
 basicimg/src/img_vlfeat_mser.cpp | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 0014d2a..5372922 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1148,6 +1148,7 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 	}
 
 	if (need_rellocate) {
+		mser_delete(f);
 		f = (MserFilt *) calloc(sizeof(MserFilt), 1);
 		fv = f;
 
@@ -1213,17 +1214,6 @@ void mser_new(void *&fv, int ndims, int const *dims) {
 		}
 	}
 
-	f->er = 0;
-
-	f->rer = 0;
-
-	f->mer = 0;
-
-	f->rmer = 0;
-
-	f->ell = 0;
-
-	f->rell = 0;
 }
 
 
-- 
2.43.0


From f4c2688ff497900eae44033e88e14816e82cfd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 066/206] fix: mser: a destroyed VF-MSER extractor leaked its
 buffers

---
 basicimg/include/img_vlfeat_mser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicimg/include/img_vlfeat_mser.h b/basicimg/include/img_vlfeat_mser.h
index 3b1e251..2981f9f 100644
--- a/basicimg/include/img_vlfeat_mser.h
+++ b/basicimg/include/img_vlfeat_mser.h
@@ -13,6 +13,10 @@ namespace basicimg {
 
 		}
 
+		~img_vlfeat_mser() {
+			clear_memory_cache();
+		}
+
 	protected:
 
 		void allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask);
-- 
2.43.0


From 7738f1f6f00a7c26ff439d2611fdc65fdca56ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 067/206] fix: mser: copying a result of VF-MSER, whose regions
 have no pixels, crashed

---
 basicimg/src/img_mser_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f8cd93f..b98afcf 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -39,7 +39,7 @@ void img_mser::operator=(const img_mser& other) {
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		if (m_size > 0) {
+		if (m_size > 0 && other.m_points != NULL) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
 		} else {
-- 
2.43.0


From 9cee836de4e71c6118bbc18a5d76a0720ac3fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 068/206] fix: mser: the ECCV 2008 extractor read a part of a
 bigger image without regard to its row step

---
 basicimg/src/img_ms_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 9d46482..96ae4c1 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -173,6 +173,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 			for (row = 0; row < height; ++row) {
 				*points++ = m_boundary_pixel;
 
+				img_data = img.ptr<u8>(row, 0);
 				for (col = 0; col < width; ++col) {
 					m_level_size[*img_data]++;
 					*extended_image_data++ = *img_data++;
-- 
2.43.0


From 748786a18e19610b7c53e60af30918608de87140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 069/206] fix: mser: the ECCV 2008 extractor overran its pixel
 heap when only bright regions were extracted

---
 basicimg/src/img_ms_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 96ae4c1..5a1db83 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -175,7 +175,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 
 				img_data = img.ptr<u8>(row, 0);
 				for (col = 0; col < width; ++col) {
-					m_level_size[*img_data]++;
+					m_level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 5004d0f06bee5e75a77985b2c813f499c9fb7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 070/206] fix: mser: the ECCV 2008 extractor looked at four of
 the eight neighbours

---
 basicimg/src/img_ms_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 5a1db83..76173ed 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -231,7 +231,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 	u32* points = m_points + 1 + img.size()[1] + 2;
 	mser_region* startRegion = regions;
 	i32* dir = m_dir;
-	i32 cols = img.size()[1];
+	u32 last_dir = (img_Connected_Type_8_Neibour == m_connected_type) ? 8 : 4;
 
 	i16 curr_gray = get_gray(points);
 	
@@ -252,7 +252,7 @@ void img_ms_mser::build_tree(const mt_mat& img, const img_mask_info<u8>& mask, u
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index <= last_dir) {
 			// get the neighbor
 			nbr_points = points + m_dir[nbr_index];
 
-- 
2.43.0


From 0db2259d1aaa91be3362f6ec0e9b413d9b2035c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 071/206] fix: mser: the ECCV 2008 extractor overran its
 component stack on a descent through all gray levels

---
 basicimg/include/img_ms_mser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/include/img_ms_mser.h b/basicimg/include/img_ms_mser.h
index 93ed626..f756cc4 100644
--- a/basicimg/include/img_ms_mser.h
+++ b/basicimg/include/img_ms_mser.h
@@ -100,7 +100,7 @@ namespace basicimg {
 		u32 m_heap_size;
 		u32** m_heap_start[257];
 
-		connected_comp m_comp[256];
+		connected_comp m_comp[258];	//the bottom of the stack and one per gray level, including 256
 
 		mser_region** m_gray_order_regions;
 		u32 m_gray_order_regions_memory_size;
-- 
2.43.0


From 07cecb7c6e0bda8df831bdee4ec54864b759bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 072/206] fix: mser: the original extractor kept the regions of
 the previous image when the size changed

---
 basicimg/src/img_origin_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 43e41da..7769045 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -595,10 +595,10 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		m_stack_helper_size = area;
 		basicsys_delete_array(m_stack_helper);
 		m_stack_helper = new i16*[area];
-	} else {
-		resetPreInfo();
 	}
 
+	resetPreInfo();
+
 	m_stack_top_index = -1;
 
 	for (i32 i = 1; i < m_window_size; ++i) {
-- 
2.43.0


From 2b55e47ad08a42332202a22eeadf85abc6e4b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 073/206] fix: mser: the old OpenCV extractor reported pixels
 of a wrong row

---
 basicimg/src/img_opencv_mser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicimg/src/img_opencv_mser.cpp b/basicimg/src/img_opencv_mser.cpp
index 230f582..be9e90f 100644
--- a/basicimg/src/img_opencv_mser.cpp
+++ b/basicimg/src/img_opencv_mser.cpp
@@ -379,6 +379,7 @@ void img_opencv_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	}
 
 	m_step_mask = width - 1;
+	m_step_gap = stepgap;
 
 	// to speedup the process, make the width to be 2^N
 	m_temp_image.create(src.size()[0] + 2, width, mt_I16C1);
-- 
2.43.0


From 4b47d22297c77de40e2d193872cc23c67c76310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 074/206] fix: mt_random: random_next_i32 left its interval
 (RAND_MAX + 1 overflows)

---
 basicmath/src/mt_random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 709fc1e..b3996b6 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -8,8 +8,8 @@ void mt_random::set_seed(u32 seed) {
 }
 
 i32 mt_random::random_next_i32(i32 min, i32 max) {
-	f64 value = rand() / (f64)(RAND_MAX + 1);	//[0,1)
-	return (i32)(value * (max - min + 1)) + min;
+	f64 value = rand() / ((f64)RAND_MAX + 1);	//[0,1)
+	return (i32)((i64)(value * ((f64)max - min + 1)) + min);
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-- 
2.43.0


From 856e675150347b6be4a6d22be1cd972aa2300ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 075/206] fix: mt_random: random_uniform returned the opened
 bounds when they are not near zero

---
 basicmath/src/mt_random.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index b3996b6..a52af94 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -13,15 +13,18 @@ i32 mt_random::random_next_i32(i32 min, i32 max) {
 }
 
 f64 mt_random::random_uniform(f64 min, b8 min_opened, f64 max, b8 max_opened) {
-	if (min_opened) {
-		min += DBL_EPSILON;
+	f64 value = rand() / (f64)RAND_MAX * (max - min) + min;
+
+	//rounding must not reach past a bound, and an opened bound is left out at any magnitude
+	if (value <= min) {
+		value = min_opened ? nextafter(min, max) : min;
 	}
 
-	if (max_opened) {
-		max -= DBL_EPSILON;
+	if (value >= max) {
+		value = max_opened ? nextafter(max, min) : max;
 	}
 
-	return rand() / (f64)RAND_MAX * (max - min) + min;
+	return value;
 }
 
 mt_mat mt_random::random_uniform_iid(i32 rows, i32 cols, mt_Depth_Channel depth_channel, f64 min /* = 0.0 */, b8 min_opened /* = sys_true */, f64 max /* = 1.0 */, b8 max_opened /* = sys_true */) {
-- 
2.43.0


From 111e6e9d63e26d1239283fa274af3c43d47bae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 076/206] fix: mt_random: bernoulli divided by zero or drew
 from a wrong distribution for more than twelve trials

---
 basicmath/src/mt_random.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index a52af94..a5fbf64 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -94,8 +94,11 @@ i32 mt_random::bernoulli(i32 n, f64 p) {
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
+	f64 combination = 1;
+
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = mt_helper::combination(n, k) * pow(p, k) * pow(1 - p, n - k);
+		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
+		combination = combination * (n - k) / (k + 1);
 	}
 
 	for (i32 k = 1; k < n; ++k) {
@@ -128,8 +131,11 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
+	f64 combination = 1;
+
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = mt_helper::combination(n, k) * pow(p, k) * pow(1 - p, n - k);
+		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
+		combination = combination * (n - k) / (k + 1);
 	}
 
 	for (i32 k = 1; k < n; ++k) {
-- 
2.43.0


From 0af68c04062b074ce9cf3584758bf575321c1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 077/206] fix: mt_random: bernoulli_iid leaked its buffer for
 matrices of many channels

---
 basicmath/src/mt_random.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index a5fbf64..353d804 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -169,6 +169,8 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 		mat.set(random_values, dims, &iter.position()[0]);
 	}
 
+	basicmath_mat_release(random_values);
+
 	return mat;
 }
 
-- 
2.43.0


From 7708c36df49779722dd7829e097a1b87dace5592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 078/206] fix: mt_random: randperm did not repeat after
 set_seed

---
 basicmath/src/mt_random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 353d804..25d15eb 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -78,7 +78,10 @@ void mt_random::randperm(vector<i32>& results, i32 size) {
 		results[i] = i;
 	}
 
-	random_shuffle(results.begin(), results.end());
+	//random_shuffle of some standard libraries is not driven by set_seed
+	for (i32 i = (i32)results.size() - 1; i > 0; --i) {
+		swap(results[i], results[random_next_i32(0, i)]);
+	}
 }
 
 void mt_random::randSample(i32 size, vector<i32>& results) {
-- 
2.43.0


From 3520a87db66984047765f29455dd3f008ae2a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 079/206] fix: mt_mat: number - mat, number / mat and -mat read
 wrong elements of views

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 5a5b303..70185ce 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1451,8 +1451,8 @@ namespace basicmath {
 				type_b[i] = (T)b[i];
 			}
 
-			i32 last_res_step = res.step()[res.dim() - 1] > 0 ? channels : -channels;
-			i32 last_a_step = a.step()[a.dim() - 1] > 0 ? channels : -channels;
+			i32 last_res_step = res.last_dim_element_step();
+			i32 last_a_step = a.last_dim_element_step();
 
 			if (res.is_continuous() && a.is_continuous()) {
 				T* ptr_res = (T*)res.data();
-- 
2.43.0


From 6378ec5298a9f8475b9da8519e38cfcb6d175587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 080/206] fix: mt_mat: the bias operations leaked their index
 buffer beyond four dimensions

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 70185ce..59fdd3a 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -1751,6 +1751,8 @@ namespace basicmath {
 					}
 				}
 			}
+
+			basicmath_mat_release(bias_indexes);
 		}
 
 		static void operation_bias(mt_mat& res, const mt_mat& src, const mt_mat& bias, mt_mat_helper::Math_Op_Code code) {
-- 
2.43.0


From 04eaeb005afdbbaf8d770ea4c81b5a4857461463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 081/206] fix: mt_mat: softmax read and wrote wrong elements of
 views

---
 basicmath/src/mt_mat_math_operation.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 59fdd3a..b66d785 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -209,16 +209,19 @@ namespace basicmath {
 			const u8* ptr_src_dim0 = src.data();
 			u8* ptr_dst_dim0 = res.data();
 
+			i32 src_last_step = src.last_dim_element_step();
+			i32 dst_last_step = res.last_dim_element_step();
+
 			for (i32 row = 0; row < src.size()[0]; ++row) {
 				const T* ptr_src = (T*)ptr_src_dim0;				
-				T max_value = *ptr_src++;
+				T max_value = *ptr_src;
 
 				for (int col = 1; col < src.size()[1]; ++col) {
+					ptr_src += src_last_step;
+
 					if (*ptr_src > max_value) {
 						max_value = *ptr_src;
 					}
-
-					++ptr_src;
 				}
 
 				ptr_src = (T*)ptr_src_dim0;
@@ -226,14 +229,18 @@ namespace basicmath {
 				T sum = (T)0.0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst = exp(*ptr_src++ - max_value);
-					sum += *ptr_dst++;
+					*ptr_dst = exp(*ptr_src - max_value);
+					sum += *ptr_dst;
+
+					ptr_src += src_last_step;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_dst = (T*)ptr_dst_dim0;
 
 				for (i32 col = 0; col < src.size()[1]; ++col) {
-					*ptr_dst++ /= sum;
+					*ptr_dst /= sum;
+					ptr_dst += dst_last_step;
 				}
 
 				ptr_src_dim0 += src.step()[0];
-- 
2.43.0


From cc1d908c4885114220501efb79da2b98cba62bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 082/206] fix: mt_mat: activate and self_activate took the
 first element of an empty parameter vector

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index b66d785..4a4d6e3 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2823,7 +2823,7 @@ mt_mat mt_mat::sub_stride(i32 size, const i32* strides) const {
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, const vector<f64>& activate_params) const {
-	return activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) const {
@@ -2849,7 +2849,7 @@ mt_mat mt_mat::activate(mt_Activate_Type type, i32 activate_param_size, const f6
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, const vector<f64>& activate_params) {
-	return self_activate(type, (i32)activate_params.size(), &activate_params[0]);
+	return self_activate(type, (i32)activate_params.size(), activate_params.empty() ? NULL : &activate_params[0]);
 }
 
 mt_mat& mt_mat::self_activate(mt_Activate_Type type, i32 activate_param_size, const f64* activate_params) {
-- 
2.43.0


From ff6c71dc74433c05cbeaa1540464846ea0703305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 083/206] fix: mt_mat: the quadratic loss compared everything
 with the first element and added to memory never set

---
 basicmath/src/mt_mat_math_operation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 4a4d6e3..68406d0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -291,7 +291,7 @@ namespace basicmath {
 			mt_array_element_const_iterator src_iter(src);
 			mt_array_element_const_iterator matching_iter(matching_mat);
 
-			mt_mat loss_res(1, 1, src.depth_channel());
+			mt_mat loss_res(1, 1, src.depth_channel(), 0.0);
 			T* ptr_dst = loss_res.ptr<T>(0, i32(0));
 
 			for (;;) {
@@ -301,9 +301,9 @@ namespace basicmath {
 					break;
 				}
 
-				const T* ptr_matching = (const T*)matching_mat.data();
+				const T* ptr_matching = (const T*)matching_iter.data();
 
-				for (i32 c = 0; c < src.dim(); ++c) {
+				for (i32 c = 0; c < src.channel(); ++c) {
 					if (mt_helper::is_number(ptr_matching[c])) {
 						ptr_dst[c] += (ptr_src[c] - ptr_matching[c]) * (ptr_src[c] - ptr_matching[c]) / 2;
 					}
-- 
2.43.0


From 2b67c9f449e81608a7ad05373ebc3f26f0ab4f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 084/206] fix: mt_mat: the logarithmic loss read wrong elements
 of views

---
 basicmath/src/mt_mat_math_operation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 68406d0..eb5303b 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -324,6 +324,9 @@ namespace basicmath {
 			const u8* ptr_src_dim0 = src.data();
 			const u8* ptr_matching_dim0 = matching_mat.data();
 
+			i32 src_last_step = src.last_dim_element_step();
+			i32 matching_last_step = matching_mat.last_dim_element_step();
+
 			if (1 == src.size()[1]) {
 				for (i32 row = 0; row < src.size()[0]; ++row) {
 					const T* ptr_src_dim1 = (const T*)ptr_src_dim0;
@@ -354,8 +357,8 @@ namespace basicmath {
 								*ptr_dst -= (T)log(*ptr_src_dim1 + DBL_EPSILON);
 								break;
 							} else {
-								++ptr_matching_dim1;
-								++ptr_src_dim1;
+								ptr_matching_dim1 += matching_last_step;
+								ptr_src_dim1 += src_last_step;
 							}
 						}
 
-- 
2.43.0


From be18fbfdf9653e5d09d9c30ab33a31ba87369b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 085/206] fix: mt_mat: reduce to the maximum or minimum of all
 elements wrote past its buffer for more channels than dimensions

---
 basicmath/src/mt_mat_math_operation.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index eb5303b..02f002c 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -621,12 +621,10 @@ namespace basicmath {
 			}
 
 			if (type == mt_mat::Reduce_Type_Max || type == mt_mat::Reduce_Type_Min) {
-				basicmath_mat_request_memory(f64, first_element, src.dim());
-				
-				src.get(first_element, 0);
-				dst.set(src.dim(), first_element);
+				vector<f64> first_element;
 
-				basicmath_mat_release(first_element);
+				src.get(first_element, 0);
+				dst.set(first_element);
 			}
 
 			mt_array_element_const_iterator src_iter(src);
-- 
2.43.0


From d95604856010b50baa5194d076eae2301b24c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 086/206] fix: mt_mat: reduce along the channels wrote outside
 its size buffer

---
 basicmath/src/mt_mat_math_operation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 02f002c..d0b89e0 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -698,6 +698,10 @@ namespace basicmath {
 				return reduce_inner_channel<T>(src, type);
 			}
 
+			if (reduce_dim == mt_mat::Reduce_Dim_Align_Channel) {
+				return reduce<T>(src.channel_as_last_dim(), type, src.dim()).last_dim_as_channel();
+			}
+
 			basicmath_mat_request_memory(i32, dst_sizes, src.dim());
 
 			for (i32 i = 0; i < src.dim(); ++i) {
-- 
2.43.0


From 380f8b3d5dd6866fc6cdf2901d72c636863042b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 087/206] fix: mt_mat: element_compared_mask did not accept the
 empty matrix that stands for zeros

---
 basicmath/src/mt_mat_math_operation.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index d0b89e0..25e49f6 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -3019,15 +3019,17 @@ mt_mat mt_mat::reduce(mt_mat::Reduce_Type type, i32 reduce_dim) const {
 }
 
 mt_mat mt_mat::element_compared_mask(const mt_mat& other, mt_mat::Compare_Task task, f64 true_mask, f64 false_mask) const {
-	basiclog_assert2(is_same_size(other));
-	
-	if (other.depth() != depth()) {
-		mt_mat temp = other.convert(depth());
+	if (!other.is_empty()) {
+		basiclog_assert2(is_same_size(other));
+
+		if (other.depth() != depth()) {
+			mt_mat temp = other.convert(depth());
 
-		return element_compared_mask(temp, task, true_mask, false_mask);
+			return element_compared_mask(temp, task, true_mask, false_mask);
+		}
 	}
 
-	mt_mat res(other, mt_mat::Construct_Type_Create_As_Size);
+	mt_mat res(*this, mt_mat::Construct_Type_Create_As_Size);
 
 	switch (depth()) {
 	case mt_U8:
-- 
2.43.0


From e4186d1d82044f32973c4f1298ad52d54d73dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 088/206] fix: mt_mat: expand leaked its ranges beyond four
 dimensions

---
 basicmath/src/mt_mat_math_operation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 25e49f6..2570746 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2797,6 +2797,8 @@ mt_mat mt_mat::expand(i32 size, const i32* side_sizes_1, const i32* side_sizes_2
 		m_auto_derivative->expand(res, *this, size, ranges);
 	}
 
+	basicmath_mat_release(ranges);
+
 	return res;
 }
 
-- 
2.43.0


From 77d8375b35d4d1fec56378efd3893b2d28b18eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 089/206] fix: mt_mat: repeat leaked its sizes beyond four
 dimensions

---
 basicmath/src/mt_mat.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index aed44ce..4bdc995 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2434,9 +2434,11 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
@@ -2460,6 +2462,8 @@ mt_mat mt_mat::repeat(i32 dims, const i32* nsizes, i32 nchannels) const {
 	}
 
 	if (!size_changed && nchannels == 1) {
+		basicmath_mat_release(dst_sizes);
+
 		return clone();
 	}
 
-- 
2.43.0


From 2656ba3226f9dd895c19167d00f2f85fb4c1e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 090/206] fix: mt_mat_helper: merge_align_dim gave every matrix
 the room of the first

---
 basicmath/src/mt_mat_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 99c5ffc..0f62cee 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -28,8 +28,8 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 	i32 dim_start_index = 0;
 
 	for (i32 i = 0; i < (i32)elements.size(); ++i) {
-		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[0].size()[dim], dim);
-		dim_start_index += elements[0].size()[dim];
+		mt_mat sub_mat = res.sub(dim_start_index, dim_start_index + elements[i].size()[dim], dim);
+		dim_start_index += elements[i].size()[dim];
 
 		sub_mat.set(elements[i]);
 	}
-- 
2.43.0


From 1ecc7e7fc4f0028a68057e988dae7b12d4d8aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 091/206] fix: mt_mat_helper: merge_align_dim leaked its sizes
 beyond four dimensions

---
 basicmath/src/mt_mat_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 0f62cee..9b77e10 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -44,6 +44,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		auto_derivative->merge_align_dim(res, elements, dim);
 	}
 
+	basicmath_mat_release(res_size);
 
 	return res;
 }
-- 
2.43.0


From 6b91ceae0007623e897c9ed225f69daf3157dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 092/206] fix: mt_mat: is_zero looked at some bytes of every
 element only

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 4bdc995..0fb5680 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1332,7 +1332,7 @@ b8 mt_mat::is_zero() const {
 			break;
 		}
 
-		for (i32 c = 0; c < channel(); ++c) {
+		for (i32 c = 0; c < element_size(); ++c) {
 			if (ptr_data[c] != 0) {
 				return sys_false;
 			}
-- 
2.43.0


From f8a15b03f47e611f6fd5cef2b30446119a3b9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 093/206] fix: mt_mat: operator== compared matrices of
 different dimensions

---
 basicmath/src/mt_mat.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0fb5680..e4401dd 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1357,6 +1357,10 @@ b8 mt_mat::operator==(const mt_mat& other) const {
 		return false;
 	}
 
+	if (other.dim() != dim()) {
+		return false;
+	}
+
 	for (int c = 0; c < dim(); ++c) {
 		if (size()[c] != other.size()[c]) {
 			return false;
-- 
2.43.0


From 53a7212cf5afe34e75e1185a7211edd24bda7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 094/206] fix: mt_mat: get_index named a wrong element when a
 dimension of size one shares its step with another

---
 basicmath/src/mt_mat.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index e4401dd..751e20d 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2901,7 +2901,15 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 
 		int count = 0;
 
-		for (;;) {
+		for (int i = 0; i < m_dims; ++i) {
+			if (size()[i] == 1) {
+				index[i] = 0;
+				flags[i] = sys_true;
+				++count;
+			}
+		}
+
+		while (count < m_dims) {
 			int max_abs_step = 0;
 			int max_index = -1;
 
@@ -2917,10 +2925,6 @@ void mt_mat::get_index(vector<int>& index, const u8* ptr_data) const {
 			flags[max_index] = sys_true;
 
 			++count;
-
-			if (count == m_dims) {
-				break;
-			}
 		}
 
 		basicmath_mat_release(flags);
-- 
2.43.0


From ec95240f72ce17ed369fa41285959431bea8aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 095/206] fix: mt_mat: set_eye did nothing and returned no
 matrix

---
 basicmath/src/mt_mat.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 751e20d..d948c34 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1350,6 +1350,15 @@ mt_mat& mt_mat::set_eye(b8 left_high) {
 	basiclog_assert2(dim() == 2);
 	on_vaule_changed();
 
+	set(0.0);
+
+	i32 number = min(size()[0], size()[1]);
+
+	for (i32 i = 0; i < number; ++i) {
+		set(1.0, i, left_high ? i : size()[1] - 1 - i);
+	}
+
+	return *this;
 }
 
 b8 mt_mat::operator==(const mt_mat& other) const {
-- 
2.43.0


From 2439c1212c18e1bc66aacb049b9de0cd7386dad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 096/206] fix: mser: the OpenCV extractor left its memory for
 images of fewer than three rows or columns

---
 basicimg/src/img_opencv3_mser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index 6aa82ed..e9e2064 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -246,6 +246,11 @@ void img_opencv3_mser::recognize_mser() {
 void img_opencv3_mser::extract_pixel(img_multi_msers& msers, u8 gray_mask) {
 	//basiclog_assert2(m_delta > 0);
 
+	if (m_tempsrc.size()[0] < 3 || m_tempsrc.size()[1] < 3) {
+		m_channel_total_pixel_number = 0;	//every pixel belongs to the boundary, which is never extracted
+		return;
+	}
+
 	preprocess(m_tempsrc, m_level_size, gray_mask);
 
 	CompHistory* histptr = &m_histbuf[0];
-- 
2.43.0


From 220f0f721b3de23fc75845f1927857223aaeb8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 097/206] fix: mt_helper: multi_index_from_index gave wrong
 indexes and read past the sizes

---
 basicmath/include/mt_helper.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..b01e507 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -233,9 +233,12 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
+				i32 cur_dim_index = index / dim_element_number;
 				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
+
+				if (i + 1 < size) {
+					dim_element_number /= sizes[i + 1];
+				}
 
 				indexs[i] = cur_dim_index;
 			}
-- 
2.43.0


From 375e42974d4d847b6b9dc0959d027b554c3dc969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 098/206] fix: mt_pooling: index pooling of a 2-d matrix read
 the first channel for every channel

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..52739a9 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -565,7 +565,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 							for (i32 c = 0; c < channels; ++c) {
-								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, 0);
+								ptr_result[c] = src.at<T>(ptr_mask[c] / src_cols, ptr_mask[c] % src_cols, c);
 							}
 
 							mat_start_col += strides[1];
-- 
2.43.0


From 40c7da3658d4fa5a21ea73c36ff11cb5966c7703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 099/206] fix: mt_pooling: index pooling used the places of the
 first channel for every channel

---
 basicmath/src/mt_pooling.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 52739a9..22ebb41 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -115,14 +115,12 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Index) {
 						i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-
-						basiclog_assert2(src.is_valid_index(src_iter_indexs));
+						for (i32 c = 0; c < src.channel(); ++c) {
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
 
-						const T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
+							basiclog_assert2(src.is_valid_index(src_iter_indexs));
 
-						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_data[c] = ptr_src_data[c];
+							ptr_data[c] = *src.ptr<T>(src_iter_indexs, c);
 						}
 					}
 				}
@@ -1039,11 +1037,11 @@ namespace basicmath {
 							i32* ptr_mask = (i32*)ptr_mask_dim1;
 
 							for (int col = 0; col < res_cols; ++col) {
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									ptr_result[c] = src.at<T>(src_plane, src_row, src_col, c);
 								}
 								
-- 
2.43.0


From 5bb2f9ff2b0b01674ce4623da8b0c4b6697a808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 100/206] fix: mt_pooling: unpooling used the places of the
 first channel for every channel

---
 basicmath/src/mt_pooling.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 22ebb41..b7fdfc8 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -222,11 +222,10 @@ namespace basicmath {
 					} else if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
 						const i32* ptr_mask_data = mask_mat.ptr<i32>(cur_indexs, 0);
 
-						mt_helper::multi_index_from_index(src_iter_indexs, *ptr_mask_data, src.dim(), src.size());
-						T* ptr_src_data = src.ptr<T>(src_iter_indexs, 0);
-
 						for (i32 c = 0; c < src.channel(); ++c) {
-							ptr_src_data[c] += ptr_data[c];
+							mt_helper::multi_index_from_index(src_iter_indexs, ptr_mask_data[c], src.dim(), src.size());
+
+							*src.ptr<T>(src_iter_indexs, c) += ptr_data[c];
 						}
 					}
 				}
@@ -1193,10 +1192,10 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {
 
-							int src_row = (*ptr_mask_dim1) / src_cols;
-							int src_col = *ptr_mask_dim1 % src_cols;
-
 							for (i32 c = 0; c < channels; ++c) {
+								int src_row = ptr_mask_dim1[c] / src_cols;
+								int src_col = ptr_mask_dim1[c] % src_cols;
+
 								src.at<T>(src_row, src_col, c) += ptr_pooling_res[c];
 							}
 
@@ -1420,11 +1419,11 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 
-								i32 src_plane = *ptr_mask / src_plane_element_number;
-								i32 src_row = (*ptr_mask - src_plane * src_plane_element_number) /  src_cols;
-								i32 src_col = *ptr_mask % src_cols;
-
 								for (i32 c = 0; c < channels; ++c) {
+									i32 src_plane = ptr_mask[c] / src_plane_element_number;
+									i32 src_row = (ptr_mask[c] - src_plane * src_plane_element_number) /  src_cols;
+									i32 src_col = ptr_mask[c] % src_cols;
+
 									src.at<T>(src_plane, src_row, src_col, c) += ptr_pooling_res[c];
 								}
 								
-- 
2.43.0


From 0f191d5b7428f68be83debb035c226c040221c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 101/206] fix: mt_pooling: unpooling of a 3-d matrix by places
 used the first place of a row for the whole row

---
 basicmath/src/mt_pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index b7fdfc8..b9e0d77 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1305,7 +1305,7 @@ namespace basicmath {
 
 								src.at<T>(src_plane, src_row, src_col, 0) += *ptr_pooling_res;
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
@@ -1428,7 +1428,7 @@ namespace basicmath {
 								}
 								
 								ptr_pooling_res += pooling_res_last_step;
-								ptr_mask_dim1 += mask_last_step;
+								ptr_mask += mask_last_step;
 							}
 
 							ptr_pooling_res_dim1 += pooling_res_mat.step()[1];
-- 
2.43.0


From c9234cc594f0cf95d38df362e14a2720f896a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 102/206] fix: mt_pooling: unpooling of a 3-d matrix of several
 channels used the sizes of the pooled matrix

---
 basicmath/src/mt_pooling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index b9e0d77..2dfde18 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1353,9 +1353,9 @@ namespace basicmath {
 				i32 mat_start_plane = 0;
 				const u8* ptr_pooling_res_dim0 = pooling_res_mat.data();
 
-				i32 src_planes = pooling_res_mat.size()[0];
-				i32 src_rows = pooling_res_mat.size()[1];
-				i32 src_cols = pooling_res_mat.size()[2];
+				i32 src_planes = src.size()[0];
+				i32 src_rows = src.size()[1];
+				i32 src_cols = src.size()[2];
 				i32 res_planes = pooling_res_mat.size()[0];
 				i32 res_rows = pooling_res_mat.size()[1];
 				i32 res_cols = pooling_res_mat.size()[2];
-- 
2.43.0


From adc1ac96f369bec58f2946e2bb0c4c3c5294fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 103/206] fix: mt_pooling: unpooling by places reported an
 error when the places were given

---
 basicmath/src/mt_pooling.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 2dfde18..86360bf 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1549,8 +1549,10 @@ mt_mat mt_mat::pooling(mt_mat& mask_mat, mt_Pooling_Type pooling_type, const vec
 }
 
 mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling_Type pooling_type, i32 size, const int* kernel_sizes, const int* strides) const {	
-	basiclog_assert2(mask_mat.is_empty());
-	
+	if (pooling_type == mt_Pooling_Type_Max || pooling_type == mt_Pooling_Type_Min || pooling_type == mt_Pooling_Type_Index) {
+		basiclog_assert2(!mask_mat.is_empty());
+	}
+
 	mt_mat src(dim(), src_size, depth_channel(), 0);
 	
 	switch (depth()) {
-- 
2.43.0


From a03adbea7363427828e9192d238de47f75dbdcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 104/206] fix: mt_pooling: unpooling treated signed bytes as
 unsigned

---
 basicmath/src/mt_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 86360bf..9b1349f 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1560,7 +1560,7 @@ mt_mat mt_mat::unpooling(const int* src_size, const mt_mat& mask_mat, mt_Pooling
 		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_I8:
-		private_pooling::unpooling<u8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
+		private_pooling::unpooling<i8>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
 		break;
 	case mt_U16:
 		private_pooling::unpooling<u16>(src, mask_mat, *this, pooling_type, size, kernel_sizes, strides);
-- 
2.43.0


From d09e3d9c924c91e22b647d76979a5e26ac0da64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 105/206] fix: mt_pooling: maximum and minimum pooling of a 3-d
 matrix began with an element past their kernel

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 9b1349f..d2ebbd7 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -661,8 +661,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -717,7 +717,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -897,7 +897,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -956,8 +956,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From 9c0a3613719360f38657ead2387dcac8886e6ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 106/206] fix: mt_random: bernoulli always drew the highest
 count beyond a thousand trials

---
 basicmath/src/mt_random.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_random.cpp b/basicmath/src/mt_random.cpp
index 25d15eb..b70e9b8 100644
--- a/basicmath/src/mt_random.cpp
+++ b/basicmath/src/mt_random.cpp
@@ -97,11 +97,11 @@ i32 mt_random::bernoulli(i32 n, f64 p) {
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
-	f64 combination = 1;
+	f64 log_combination = 0;	//the numbers of combinations themselves overflow beyond a thousand trials
 
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
-		combination = combination * (n - k) / (k + 1);
+		probabilitys[k] = exp(log_combination + (k == 0 ? 0 : k * log(p)) + (k == n ? 0 : (n - k) * log(1 - p)));
+		log_combination += log((f64)(n - k) / (k + 1));
 	}
 
 	for (i32 k = 1; k < n; ++k) {
@@ -134,11 +134,11 @@ mt_mat mt_random::bernoulli_iid(i32 dims, const i32* sizes, mt_Depth_Channel dep
 	vector<f64> probabilitys;
 	probabilitys.resize(n + 1);
 
-	f64 combination = 1;
+	f64 log_combination = 0;	//the numbers of combinations themselves overflow beyond a thousand trials
 
 	for (i32 k = 0; k <= n; ++k) {
-		probabilitys[k] = combination * pow(p, k) * pow(1 - p, n - k);
-		combination = combination * (n - k) / (k + 1);
+		probabilitys[k] = exp(log_combination + (k == 0 ? 0 : k * log(p)) + (k == n ? 0 : (n - k) * log(1 - p)));
+		log_combination += log((f64)(n - k) / (k + 1));
 	}
 
 	for (i32 k = 1; k < n; ++k) {
-- 
2.43.0


From 3331a1930d1ad70f392936c383179d7b0d85dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 107/206] fix: mt_auto_derivative: the nodes of constants were
 never released

---
 basicmath/src/mt_auto_derivative.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index f73a278..11bab91 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -335,6 +335,8 @@ mt_ad_tree_node* mt_auto_derivative::get_node(const mt_mat& mat) {
 
 mt_ad_tree_node* mt_auto_derivative::get_node(const vector<double>& const_value) {
 	mt_ad_tree_node* node = new mt_ad_const_leaf_tree_node(const_value);
+	m_nodes.push_back(node);
+
 	return node;
 }
 
-- 
2.43.0


From da5071ff15ac68aa772a0ff2665470cebb4a39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 108/206] fix: mt_auto_derivative: the derivative by a matrix
 no computation had used read a null node

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 11bab91..ec19701 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -53,7 +53,7 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 		mt_ad_tree_node* target_node = find_same(target);
 
 		for (i32 i = 0; i < (i32)m_nodes.size(); ++i) {
-			if (m_nodes[i]->match(src)) {
+			if (target_node != NULL && m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
 				derivative(target_node, m_nodes[i], src);
-- 
2.43.0


From 5d007514771f20b9375260899815054a3e44e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 109/206] fix: mt_auto_derivative: the derivatives of several
 sources by several targets took the targets by the source's number

---
 basicmath/src/mt_auto_derivative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index ec19701..8401623 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -104,7 +104,7 @@ void mt_auto_derivative::derivative(vector<mt_mat>& reses, const vector<mt_mat>&
 
 	for (i32 i = 1; i < (i32)srcs.size(); ++i) {
 		for (i32 j = 0; j < (i32)targets.size(); ++j) {
-			reses[j] += derivative(targets[i], srcs[i]);
+			reses[j] += derivative(targets[j], srcs[i]);
 		}
 	}
 }
-- 
2.43.0


From a3280e71d4e505493dd8683b688fa8a9da3d1aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 110/206] fix: mt_auto_derivative: changing a derivative that
 was handed out changed the ones the engine keeps

---
 basicmath/src/mt_auto_derivative.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 8401623..4079bde 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -60,6 +60,11 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 
 				res = target_node->to_mat_tree_node()->derivative_res(src);
 
+				if (!res.is_empty()) {
+					// the caller may change it, what the nodes keep must stay
+					res = res.clone();
+				}
+
 				break;
 			}
 		}
-- 
2.43.0


From bb9db53005a183c3fe2306043af2c701e10139cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 111/206] fix: mt_auto_derivative: the derivative by a matrix
 that is an operand twice counted it as the first operand both times

---
 basicmath/include/mt_auto_derivative.h      |  2 +-
 basicmath/include/mt_auto_derivative_tree.h | 24 +++++++++++-------
 basicmath/src/mt_auto_derivative.cpp        |  8 +++---
 basicmath/src/mt_auto_derivative_tree.cpp   | 28 ++++++++++-----------
 4 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 3ef4027..96aacb4 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -113,7 +113,7 @@ namespace basicmath {
 
 	protected:
 
-		void find_node_in_parent(vector<mt_ad_tree_node*>& parents, const mt_ad_tree_node* node) const;
+		void find_node_in_parent(vector<mt_ad_tree_node*>& parents, vector<i32>& child_indexs, const mt_ad_tree_node* node) const;
 
 		void derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat);
 
diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 4614d5e..89eb462 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -61,7 +61,7 @@ namespace basicmath {
 		virtual b8 match(const mt_mat& other) const = 0;
 		virtual b8 related(const mt_mat& other) const = 0;
 
-		virtual mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) = 0;
+		virtual mt_mat derivate_child(i32 child_index, const mt_mat& src) = 0;
 		virtual mt_ad_mat_tree_node* to_mat_tree_node() {return NULL;}
 		virtual mt_ad_const_leaf_tree_node* to_const_leaf_tree_node() {return NULL;}
 
@@ -87,7 +87,7 @@ namespace basicmath {
 			 return sys_false;
 		 }
 
-		mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) {return mt_mat();}
+		mt_mat derivate_child(i32 child_index, const mt_mat& src) {return mt_mat();}
 		mt_ad_const_leaf_tree_node* to_const_leaf_tree_node() {return this;}
 
 		vector<f64> m_values;
@@ -98,6 +98,7 @@ namespace basicmath {
 
 		mt_ad_mat_tree_node(i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
 			m_max_cache_size = max_cache_size;
+			m_child_index = 0;
 		}
 
 		virtual ~mt_ad_mat_tree_node() {}
@@ -114,8 +115,12 @@ namespace basicmath {
 			return this;
 		}
 
-		mt_mat derivate_child(mt_ad_mat_tree_node* child_node, const mt_mat& src) {
-			mt_mat child_derivative = derivate_child_on_operation(child_node, derivative_res(src));
+		/** A mat can be an operand several times, so the child is told by its index
+		*/
+		mt_mat derivate_child(i32 child_index, const mt_mat& src) {
+			m_child_index = child_index;
+
+			mt_mat child_derivative = derivate_child_on_operation(m_childs[child_index]->to_mat_tree_node(), derivative_res(src));
 
 			if (!child_derivative.is_continuous()) {
 				// make the mat to be continuous
@@ -181,6 +186,7 @@ namespace basicmath {
 	protected:
 
 		i32 m_max_cache_size;
+		i32 m_child_index;
 
 		virtual mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) = 0;
 	};
@@ -265,9 +271,9 @@ namespace basicmath {
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
 			mt_mat child_derivative = derivative_res;
 
-			if (child_node == m_childs[0]) {
+			if (m_child_index == 0) {
 				return derivative_res;
-			} else if (child_node == m_childs[1]) {
+			} else if (m_child_index == 1) {
 				return -derivative_res;
 			} else {
 				basiclog_assert_message2(sys_false, "input child_node is not in the m_childs!");
@@ -343,9 +349,9 @@ namespace basicmath {
 	protected:
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			if (child_node == m_childs[0]) {
+			if (m_child_index == 0) {
 				return derivative_res.mul(m_childs[1]->to_mat_tree_node()->m_mat.t());
-			} else if (child_node == m_childs[1]) {
+			} else if (m_child_index == 1) {
 				//basiclog_info2(m_childs[0]->to_mat_tree_node()->m_mat.t().mul(derivative_res));
 				return m_childs[0]->to_mat_tree_node()->m_mat.t().mul(derivative_res);
 			} else {
@@ -892,7 +898,7 @@ namespace basicmath {
 			i32 dim_start_index = 0;
 			
 			for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
-				if (m_childs[i] == child_node) {
+				if (i == m_child_index) {
 					return derivative_res.sub(dim_start_index, dim_start_index + m_childs[i]->to_mat_tree_node()->m_mat.size()[m_dim], m_dim);
 				} else {
 					dim_start_index += m_childs[i]->to_mat_tree_node()->m_mat.size()[m_dim];
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 4079bde..8e0b621 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -304,13 +304,14 @@ void mt_auto_derivative::reset() {
 	m_nodes.clear();
 }
 
-void mt_auto_derivative::find_node_in_parent(vector<mt_ad_tree_node*>& parents, const mt_ad_tree_node* node) const {
+void mt_auto_derivative::find_node_in_parent(vector<mt_ad_tree_node*>& parents, vector<i32>& child_indexs, const mt_ad_tree_node* node) const {
 	for (int i = 0; i < (int)m_nodes.size(); ++i) {
 		mt_ad_mat_tree_node* mat_node = m_nodes[i]->to_mat_tree_node();
 		if (mat_node != NULL) {
 			for (i32 j = 0; j < (i32)mat_node->m_childs.size(); ++j) {
 				if (mat_node->m_childs[j] == node) {
 					parents.push_back(m_nodes[i]);
+					child_indexs.push_back(j);
 				}
 			}
 		}
@@ -466,7 +467,8 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 	}
 
 	vector<mt_ad_tree_node*> target_parents;
-	find_node_in_parent(target_parents, target);
+	vector<i32> child_indexs;
+	find_node_in_parent(target_parents, child_indexs, target);
 
 	vector<mt_mat> res;
 
@@ -476,7 +478,7 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 		if (!target_parents[i]->to_mat_tree_node()->derivative_res(src_mat).is_empty()) {
 			//basiclog_info2(target_parents[i]->to_mat_tree_node()->derivative_res(src_mat));
 
-			res.push_back(target_parents[i]->to_mat_tree_node()->derivate_child(target->to_mat_tree_node(), src_mat));
+			res.push_back(target_parents[i]->to_mat_tree_node()->derivate_child(child_indexs[i], src_mat));
 		}
 	}
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index a06a3ea..aed9736 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -3,7 +3,7 @@
 
 
 mt_mat mt_ad_add_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -38,7 +38,7 @@ mt_mat mt_ad_add_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_substract_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -73,7 +73,7 @@ mt_mat mt_ad_substract_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tre
 }
 
 mt_mat mt_ad_mul_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res.mul_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -110,7 +110,7 @@ mt_mat mt_ad_mul_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_div_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (m_childs[0] == child_node) {
+	if (m_child_index == 0) {
 		return derivative_res.div_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
 		b8 is_unit_bias = sys_true;
@@ -166,7 +166,7 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	constant_value.push_back(1);
 
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
-		if (m_childs[i] != child_node) {
+		if (i != m_child_index) {
 			if (m_childs[i]->to_mat_tree_node() != NULL) {
 				other_mats.push_back(m_childs[i]->to_mat_tree_node()->m_mat);
 			} else {
@@ -185,13 +185,13 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 }
 
 mt_mat mt_ad_div_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	if (child_node == m_childs[0]) {
+	if (m_child_index == 0) {
 		if (m_childs[1]->to_mat_tree_node() != NULL) {
 			return derivative_res / m_childs[1]->to_mat_tree_node()->m_mat;
 		} else {
 			return derivative_res / m_childs[1]->to_const_leaf_tree_node()->m_values;
 		}
-	} else if (child_node == m_childs[1]) {
+	} else if (m_child_index == 1) {
 		if (m_childs[0]->to_mat_tree_node() != NULL) {
 			return -derivative_res * m_childs[0]->to_mat_tree_node()->m_mat / m_childs[1]->to_mat_tree_node()->m_mat.pow(2.0);
 		} else {
@@ -234,11 +234,11 @@ mt_mat mt_ad_conv_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 		basicmath_mat_release(valid_conv_sizes);
 	}
 
-	if (child_node == m_childs[0]) {
+	if (m_child_index == 0) {
 		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, mt_Conv_Kernel_Align_Type_Col);
 	}
 
-	if (child_node == m_childs[1]) {
+	if (m_child_index == 1) {
 		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Cross_Row);
 	}
 
@@ -283,7 +283,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	switch (m_loss_type) {
 	case mt_Loss_Type_Logarithmic:
 		
-		if (child_node == m_childs[0]) {
+		if (m_child_index == 0) {
 			if (derivative_res.depth() == mt_F32) {
 				return mt_ad_helper::logarithmic_loss_derivative<f32>(m_childs[0]->to_mat_tree_node()->m_mat, m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
 			} else if (derivative_res.depth() == mt_F64) {
@@ -292,16 +292,16 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 				basiclog_unsupport2();
 			}
 
-		} else if (child_node == m_childs[1]) {
+		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
 		}
 
 	case mt_Loss_Type_Quadratic:
 		
-		if (child_node == m_childs[0]) {
+		if (m_child_index == 0) {
 			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
-		} else if (child_node == m_childs[1]) {
+		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
 		}
@@ -321,7 +321,7 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
 		i32 child_channel = m_childs[i]->to_mat_tree_node()->m_mat.channel();
 
-		if (m_childs[i] == child_node) {
+		if (i == m_child_index) {
 			return derivative_res.sub_channel(start_channel, start_channel + child_channel).clone();
 		}
 
-- 
2.43.0


From fcdc5a38fd471c358c0a1b6d03b393f621c7c9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 112/206] fix: mt_auto_derivative: the derivative through the
 product of a single matrix read a factor for the first channel only

---
 basicmath/src/mt_auto_derivative_tree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index aed9736..3cd49c6 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -163,7 +163,6 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	other_mats.reserve(m_childs.size());
 
 	vector<f64> constant_value;
-	constant_value.push_back(1);
 
 	for (i32 i = 0; i < (i32)m_childs.size(); ++i) {
 		if (i != m_child_index) {
@@ -177,7 +176,9 @@ mt_mat mt_ad_dot_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 		}
 	}
 
-	if (other_mats.empty()) {
+	if (other_mats.empty() && constant_value.empty()) {
+		return derivative_res;
+	} else if (other_mats.empty()) {
 		return derivative_res * constant_value;
 	} else {
 		return mt_mat_helper::dot(other_mats, sys_false) * derivative_res;
-- 
2.43.0


From 9aee4552e344a0ee342e51211a3250f0f89b0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 113/206] fix: mt_auto_derivative: the derivative by a bias of
 one element summed up the channels only

---
 basicmath/src/mt_auto_derivative_tree.cpp | 52 -----------------------
 1 file changed, 52 deletions(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 3cd49c6..69917fc 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -6,21 +6,8 @@ mt_mat mt_ad_add_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
-		b8 is_unit_bias = sys_true;
-
 		const mt_mat& child_node_mat = child_node->to_mat_tree_node()->m_mat;
 
-		for (i32 i = 0; i < child_node_mat.dim(); ++i) {
-			if (child_node_mat.size()[i] != 1) {
-				is_unit_bias = sys_false;
-				break;
-			}
-		}
-
-		if (is_unit_bias) {
-			return derivative_res.reduce(mt_mat::Reduce_Type_Sum);
-		}
-
 		if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
 			// row bias
 			return derivative_res.reduce(mt_mat::Reduce_Type_Sum, 0);
@@ -41,21 +28,8 @@ mt_mat mt_ad_substract_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tre
 	if (m_child_index == 0) {
 		return derivative_res;
 	} else {
-		b8 is_unit_bias = sys_true;
-
 		const mt_mat& child_node_mat = child_node->to_mat_tree_node()->m_mat;
 
-		for (i32 i = 0; i < child_node_mat.dim(); ++i) {
-			if (child_node_mat.size()[i] != 1) {
-				is_unit_bias = sys_false;
-				break;
-			}
-		}
-
-		if (is_unit_bias) {
-			return -derivative_res.reduce(mt_mat::Reduce_Type_Sum);
-		}
-
 		if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
 			// row bias
 			return -derivative_res.reduce(mt_mat::Reduce_Type_Sum, 0);
@@ -76,23 +50,10 @@ mt_mat mt_ad_mul_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	if (m_child_index == 0) {
 		return derivative_res.mul_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
-		b8 is_unit_bias = sys_true;
-
 		const mt_mat& child_node_mat = child_node->to_mat_tree_node()->m_mat;
 
-		for (i32 i = 0; i < child_node_mat.dim(); ++i) {
-			if (child_node_mat.size()[i] != 1) {
-				is_unit_bias = sys_false;
-				break;
-			}
-		}
-
 		mt_mat child_derivative = derivative_res * m_childs[0]->to_mat_tree_node()->m_mat;
 
-		if (is_unit_bias) {
-			return child_derivative.reduce(mt_mat::Reduce_Type_Sum);
-		}
-
 		if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
 			// row bias
 			return child_derivative.reduce(mt_mat::Reduce_Type_Sum, 0);
@@ -113,23 +74,10 @@ mt_mat mt_ad_div_bias_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	if (m_child_index == 0) {
 		return derivative_res.div_bias(m_childs[1]->to_mat_tree_node()->m_mat);
 	} else {
-		b8 is_unit_bias = sys_true;
-
 		const mt_mat& child_node_mat = child_node->to_mat_tree_node()->m_mat;
 
-		for (i32 i = 0; i < child_node_mat.dim(); ++i) {
-			if (child_node_mat.size()[i] != 1) {
-				is_unit_bias = sys_false;
-				break;
-			}
-		}
-
 		mt_mat child_derivative = -derivative_res * m_childs[0]->to_mat_tree_node()->m_mat;
 
-		if (is_unit_bias) {
-			child_derivative = child_derivative.reduce(mt_mat::Reduce_Type_Sum);
-		}
-
 		if (child_node_mat.dim() == 2 && child_node_mat.size()[0] == 1 && child_node_mat.size()[1] == derivative_res.size()[1]) {
 			// row bias
 			child_derivative = child_derivative.reduce(mt_mat::Reduce_Type_Sum, 0);
-- 
2.43.0


From cf81f00c2e2d19e81e5d785b395cba300530396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 114/206] fix: mt_auto_derivative: the derivative of a
 logarithm to a base was multiplied by the logarithm of the base

---
 basicmath/src/mt_auto_derivative_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 69917fc..d33467f 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -199,7 +199,7 @@ mt_mat mt_ad_log_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* chi
 	mt_mat child_derivative = 1 / child_node->m_mat;
 	
 	if (mt_helper::compare_double(m_base, mt_E) != 0) {
-		child_derivative *= log(m_base);	
+		child_derivative /= log(m_base);	
 	}
 
 	return child_derivative * derivative_res;
-- 
2.43.0


From c21255870eb091ef880b360a8096d422afc29fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 115/206] fix: mt_auto_derivative: the derivative of a power
 lacked the factor of the exponent

---
 basicmath/include/mt_auto_derivative_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 89eb462..b618a41 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -727,7 +727,7 @@ namespace basicmath {
 		}
 
 		mt_mat derivate_child_on_operation( mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-			return derivative_res * child_node->m_mat.pow(m_number - 1);
+			return derivative_res * child_node->m_mat.pow(m_number - 1) * m_number;
 		}
 
 	protected:
-- 
2.43.0


From f073ebf29200b9b9fc0bb1bb60f4b87a95c71982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 116/206] fix: mt_auto_derivative: the derivative through
 softmax ignored what the results are used for

---
 basicmath/include/mt_auto_derivative_tree.h | 14 +++++++-------
 basicmath/src/mt_auto_derivative_tree.cpp   | 11 +++++++----
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index b618a41..8ec85db 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -798,9 +798,6 @@ namespace basicmath {
 	protected:
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res);
-		mt_mat softmax_derivate(const mt_mat& softmax_res);
-		mt_mat relu_derivate(const mt_mat& relu_res);
-
 		mt_Activate_Type m_activate_type;
 		vector<f64> m_activated_params;
 		b8 m_mix_loss_derivative;
@@ -916,26 +913,29 @@ namespace basicmath {
 	public:
 
 		template<class T>
-		static mt_mat softmax_derivate(const mt_mat& softmax_res) {
+		static mt_mat softmax_derivate(const mt_mat& softmax_res, const mt_mat& derivative_res) {
 			mt_mat res(softmax_res, 0);
 			const u8* ptr_softmax_res_dim0 = softmax_res.data();
+			const u8* ptr_derivative_res_dim0 = derivative_res.data();
 			u8* ptr_derivate_dim0 = res.data();
 
 			for (i32 row = 0; row < softmax_res.size()[0]; ++row) {
 				const T* ptr_softmax_res_dim1 = (const T*)ptr_softmax_res_dim0;
+				const T* ptr_derivative_res_dim1 = (const T*)ptr_derivative_res_dim0;
 				T* ptr_derivate_dim1 = (T*)ptr_derivate_dim0;
 
 				for (i32 col = 0; col < softmax_res.size()[1]; ++col) {
 					for (i32 i = 0; i < softmax_res.size()[1]; ++i) {
 						if (col == i) {
-							ptr_derivate_dim1[col] += ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]);
+							ptr_derivate_dim1[col] += ptr_derivative_res_dim1[i] * ptr_softmax_res_dim1[i] * (1 - ptr_softmax_res_dim1[i]);
 						} else {
-							ptr_derivate_dim1[col] += -ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col];
+							ptr_derivate_dim1[col] += -ptr_derivative_res_dim1[i] * ptr_softmax_res_dim1[i] * ptr_softmax_res_dim1[col];
 						}
 					}
 				}
 
 				ptr_softmax_res_dim0 += softmax_res.step()[0];
+				ptr_derivative_res_dim0 += derivative_res.step()[0];
 				ptr_derivate_dim0 += res.step()[0];
 			}
 
@@ -1043,7 +1043,7 @@ namespace basicmath {
 			return res;
 		}
 
-		static mt_mat softmax_derivate(const mt_mat& src);
+		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index d33467f..dea5f59 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -218,6 +218,9 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 	} else {
 		if (m_activate_type == mt_Activate_Type_Linear) {
 			return derivative_res;
+		} else if (m_activate_type == mt_Activate_Type_Softmax) {
+			// every result of a row depends on every element of the row
+			return mt_ad_helper::softmax_derivate(m_mat, derivative_res);
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
@@ -297,14 +300,14 @@ mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_ma
 
 
 
-mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src) {
+mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivative_res) {
 	basiclog_assert2(src.dim() == 2);
 	basiclog_assert2(src.channel() == 1);
 
 	if (src.depth() == mt_F32) {
-		return mt_ad_helper::softmax_derivate<f32>(src);
+		return mt_ad_helper::softmax_derivate<f32>(src, derivative_res);
 	} else if (src.depth() == mt_F64) {
-		return mt_ad_helper::softmax_derivate<f64>(src);
+		return mt_ad_helper::softmax_derivate<f64>(src, derivative_res);
 	} else {
 		basiclog_unsupport2();
 		return mt_mat();
@@ -346,7 +349,7 @@ mt_mat mt_ad_helper::activate_derivative(const mt_mat& src, mt_Activate_Type act
 	case mt_Activate_Type_Relu:
 		return relu_derivate(src, activated_params);
 	case mt_Activate_Type_Softmax:
-		return softmax_derivate(src);
+		return softmax_derivate(src, mt_mat(src, 1));
 	default:
 		return mt_mat();
 	}
-- 
2.43.0


From 81d29a8a86e30a6e1e1f96784b4c358fb16149f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 117/206] fix: mt_auto_derivative: the derivative through relu
 took elements below zero for positive when the slope is negative

---
 basicmath/src/mt_auto_derivative_tree.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index dea5f59..637c33f 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -221,6 +221,9 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 		} else if (m_activate_type == mt_Activate_Type_Softmax) {
 			// every result of a row depends on every element of the row
 			return mt_ad_helper::softmax_derivate(m_mat, derivative_res);
+		} else if (m_activate_type == mt_Activate_Type_Relu) {
+			// the sign of the result is not that of the element when the slope is negative
+			return derivative_res * mt_ad_helper::relu_derivate(child_node->m_mat, m_activated_params);
 		} else {
 			return derivative_res * mt_ad_helper::activate_derivative(m_mat, m_activate_type, m_activated_params);
 		}
-- 
2.43.0


From 6fa10138d41fa98f1773961687b7399d47992a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 118/206] fix: mt_mat: recording a division by constants or of
 a constant logged an error

---
 basicmath/src/mt_mat_math_operation.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/basicmath/src/mt_mat_math_operation.cpp b/basicmath/src/mt_mat_math_operation.cpp
index 2570746..2767876 100644
--- a/basicmath/src/mt_mat_math_operation.cpp
+++ b/basicmath/src/mt_mat_math_operation.cpp
@@ -2348,7 +2348,6 @@ namespace basicmath {
 			res.attach(mat.auto_derivative());
 
 			mat.auto_derivative()->div(res, vec_other, mat);
-			basiclog_unsupport2();
 		}
 
 		return res;
@@ -2661,7 +2660,6 @@ mt_mat mt_mat::operator/(const vector<double>& value) const {
 		res.m_auto_derivative = m_auto_derivative;
 
 		m_auto_derivative->div(res, *this, value);
-		basiclog_unsupport2();
 	}
 
 	return res;
-- 
2.43.0


From 66f7add6e76e5c12e06c1736ffbe9f8fca18a93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 119/206] fix: mt_auto_derivative: the derivative through the
 quadratic loss took the first channel's for every channel

---
 basicmath/src/mt_auto_derivative_tree.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index 637c33f..b64e2e2 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -231,7 +231,9 @@ mt_mat mt_ad_activate_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node
 }
 
 mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	f64 loss_derivative_value = derivative_res.get(0, 0)[0];
+	vector<f64> loss_derivative_value;
+	const i32 indexs[2] = {0, 0};
+	derivative_res.get(loss_derivative_value, 2, indexs);
 	
 	//basiclog_info2(loss_derivative_value);
 
-- 
2.43.0


From 81265b0e9caca32a74160f296a89fdadfece3430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 120/206] fix: mt_auto_derivative: a missing matching value of
 a loss made the derivatives not a number

---
 basicmath/include/mt_auto_derivative_tree.h | 26 +++++++++++++++++++++
 basicmath/src/mt_auto_derivative_tree.cpp   | 15 ++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index 8ec85db..bb31d7c 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -970,6 +970,30 @@ namespace basicmath {
 			return res;
 		}
 
+		/** The loss leaves out the elements whose matching value is not a number
+		*/
+		template<class T>
+		static mt_mat clear_unmatched(const mt_mat& derivative) {
+			mt_mat res = derivative;
+			mt_array_element_iterator iter(res);
+
+			for (;;) {
+				T* ptr_res = (T*)iter.data();
+
+				if (ptr_res == NULL) {
+					break;
+				}
+
+				for (i32 c = 0; c < res.channel(); ++c) {
+					if (!mt_helper::is_number(ptr_res[c])) {
+						ptr_res[c] = 0;
+					}
+				}
+			}
+
+			return res;
+		}
+
 		template<class T>
 		static mt_mat logarithmic_loss_derivative(const mt_mat& predicted_mat, const mt_mat& matching_mat) {
 			if (predicted_mat.size()[1] == 1) {
@@ -1045,6 +1069,8 @@ namespace basicmath {
 
 		static mt_mat softmax_derivate(const mt_mat& src, const mt_mat& derivative_res);
 
+		static mt_mat clear_unmatched(const mt_mat& derivative);
+
 		static mt_mat relu_derivate(const mt_mat& src, const vector<f64>& activated_params);
 
 		static mt_mat activate_derivative(const mt_mat& src, mt_Activate_Type activate_type, const vector<f64>& activated_params);
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index b64e2e2..f32bf6f 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -257,7 +257,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	case mt_Loss_Type_Quadratic:
 		
 		if (m_child_index == 0) {
-			return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value;
+			return mt_ad_helper::clear_unmatched((m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * loss_derivative_value);
 		} else if (m_child_index == 1) {
 			basiclog_assert2(sys_false);
 			return mt_mat();
@@ -269,7 +269,7 @@ mt_mat mt_ad_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 }
 
 mt_mat mt_ad_fake_loss_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
-	return (m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0];
+	return mt_ad_helper::clear_unmatched((m_childs[0]->to_mat_tree_node()->m_mat - m_childs[1]->to_mat_tree_node()->m_mat) * derivative_res.get(0, 0)[0]);
 }
 
 mt_mat mt_ad_merge_align_channel_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res) {
@@ -319,6 +319,17 @@ mt_mat mt_ad_helper::softmax_derivate(const mt_mat& src, const mt_mat& derivativ
 	}
 }
 
+mt_mat mt_ad_helper::clear_unmatched(const mt_mat& derivative) {
+	if (derivative.depth() == mt_F32) {
+		return mt_ad_helper::clear_unmatched<f32>(derivative);
+	} else if (derivative.depth() == mt_F64) {
+		return mt_ad_helper::clear_unmatched<f64>(derivative);
+	} else {
+		basiclog_unsupport2();
+		return mt_mat();
+	}
+}
+
 mt_mat mt_ad_helper::relu_derivate(const mt_mat& src, const vector<f64>& activated_params) {
 	if (src.depth() == mt_F32) {
 		return mt_ad_helper::relu_derivate<f32>(src, activated_params.empty() ? 0 : activated_params[0]);
-- 
2.43.0


From fc3e35650bc15c0028e830eee4969e7673354353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 121/206] fix: mt_mat: sub and sub_channel were recorded while
 the engine ignores computations

---
 basicmath/src/mt_mat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index d948c34..3fda2cf 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2708,7 +2708,7 @@ mt_mat mt_mat::sub_channel(i32 start_channel, i32 stop_channel) const {
 
 	res.m_data += start_channel * element_channel_size();
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub_channel(res, *this, start_channel, stop_channel);
@@ -2794,7 +2794,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 		}
 	}		
 
-	if (m_auto_derivative != NULL) {
+	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
 		m_auto_derivative->sub(res, *this, dims, ranges);
-- 
2.43.0


From 8cd78088f0e04df99b24038beebbfcd73836e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 122/206] fix: mt_mat_helper: merging, adding and multiplying
 matrices were recorded while the engine ignores computations

---
 basicmath/src/mt_mat_helper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat_helper.cpp b/basicmath/src/mt_mat_helper.cpp
index 9b77e10..3afa989 100644
--- a/basicmath/src/mt_mat_helper.cpp
+++ b/basicmath/src/mt_mat_helper.cpp
@@ -34,7 +34,7 @@ mt_mat mt_mat_helper::merge_align_dim(const vector<mt_mat>& elements, i32 dim, b
 		sub_mat.set(elements[i]);
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -80,7 +80,7 @@ mt_mat mt_mat_helper::merge_align_channel(const vector<mt_mat>& elements, b8 can
 		start_channel += elements[i].channel();
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -207,7 +207,7 @@ mt_mat mt_mat_helper::add(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res += temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
@@ -241,7 +241,7 @@ mt_mat mt_mat_helper::dot(const vector<mt_mat>& elements, b8 can_share_memory) {
 		res *= temp;
 	}
 
-	if (auto_derivative != NULL) {
+	if (auto_derivative != NULL && auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(auto_derivative);
 
 		for (i32 i = 0; i < (i32)elements.size(); ++i) {
-- 
2.43.0


From ddc10f43c1101aa9414b52b5f42aa19659865d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 123/206] fix: mt_mat: flip of one dimension was not recorded
 for its derivative

---
 basicmath/src/mt_mat.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 3fda2cf..94b556f 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2542,12 +2542,7 @@ void mt_mat::on_vaule_changed() {
 }
 
 mt_mat mt_mat::flip(int dim) const {
-	mt_mat res = *this;
-
-	res.m_data += (res.size()[dim] - 1) * res.step()[dim];
-	res.step()[dim] = -res.step()[dim];
-
-	return res;
+	return flip(1, &dim);
 }
 
 mt_mat mt_mat::flip(const vector<int>& dim_indexs) const {
-- 
2.43.0


From e9f35fda6c34e243ca812e10362ced2e317d7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 124/206] fix: mt_mat: unpooling a sum in two or three
 dimensions put back nothing

---
 basicmath/src/mt_pooling.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index d2ebbd7..d0dc0c1 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1074,7 +1074,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1084,7 +1084,7 @@ namespace basicmath {
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
 
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 							T unpooling_data = *ptr_pooling_res / area;
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
@@ -1154,7 +1154,7 @@ namespace basicmath {
 				i32 res_rows = pooling_res_mat.size()[0];
 				i32 res_cols = pooling_res_mat.size()[1];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (int row = 0; row < res_rows; ++row) {
 						const T* ptr_pooling_res = (const T*)ptr_pooling_res_dim0;
 						int mat_stop_row = min(mat_start_row + kernel_sizes[0], src_rows);
@@ -1163,7 +1163,7 @@ namespace basicmath {
 
 						for (int col = 0; col < res_cols; ++col) {					
 							int mat_stop_col = min(mat_start_col + kernel_sizes[1], src_cols);
-							int area = (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+							int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 							for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
 								T* ptr_src = src.ptr<T>(pooling_row, mat_start_col, 0);
@@ -1245,7 +1245,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1261,7 +1261,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 								T unpooling_data = *ptr_pooling_res / area;
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
@@ -1362,7 +1362,7 @@ namespace basicmath {
 
 				i32 src_plane_element_number = src.size()[1] * src.size()[2];
 
-				if (pooling_type == mt_Pooling_Type_Mean) {
+				if (pooling_type == mt_Pooling_Type_Mean || pooling_type == mt_Pooling_Type_Sum) {
 					for (i32 plane = 0; plane < res_planes; ++plane) {
 						const u8* ptr_pooling_res_dim1 = ptr_pooling_res_dim0;
 
@@ -1378,7 +1378,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {					
 								int mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
-								int area = (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
+								int area = pooling_type == mt_Pooling_Type_Sum ? 1 : (mat_stop_plane - mat_start_plane) * (mat_stop_row - mat_start_row) * (mat_stop_col - mat_start_col);
 
 								for (i32 pooling_plane = mat_start_plane; pooling_plane < mat_stop_plane; ++pooling_plane) {
 									for (int pooling_row = mat_start_row; pooling_row < mat_stop_row; ++pooling_row) {
-- 
2.43.0


From d5d9308fa6967c5f2b8c4531ed4c30a585c599d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 125/206] fix: mt_sort: sorting with positions left the second
 half unsorted

---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From b4cf9dd0f8763e598684b9acd1f6c34fa17da473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 126/206] fix: mt_01_bag: the flags did not tell a choice of
 the best value within the weight

---
 .../include/dynamic_programming/mt_01_bag.h   | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..0f20685 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,31 +81,16 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
-				}
-			}
-		}
-
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
-
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
+		/**
+		An element is taken where the value with it is greater than the value of the elements before it for the same weight.
+		*/
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, T_Weight considered_weight) {
+			for (i32 i = (i32)weights.size() - 1; i >= 0; --i) {
+				if (calculate_value(weights, values, i, considered_weight) != calculate_value(weights, values, i - 1, considered_weight)) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
-
-			return sys_false;
 		}
 
 		vector<cache_info> m_caches;
-- 
2.43.0


From ac6e1b46ef07fcb583237a4fc9361aa6ab2082c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:14 +0000
Subject: [PATCH 127/206] fix: mt_hist: hist counted into whatever the caller
 passed, even outside it

---
 basicmath/src/mt_hist.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index babe0fd..a6a9e50 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -14,6 +14,7 @@ void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
+	numbers.assign(hist_bin_number, 0);
 
 	f64 base_value = min_value;
 
-- 
2.43.0


From ce7d354a0c505dddaeb2a1dfbcccb02677f65657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 128/206] fix: mt_hist: the ranges left out the greatest value
 if it was not positive

---
 basicmath/src/mt_hist.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/mt_hist.cpp b/basicmath/src/mt_hist.cpp
index a6a9e50..12a7fd3 100644
--- a/basicmath/src/mt_hist.cpp
+++ b/basicmath/src/mt_hist.cpp
@@ -7,10 +7,12 @@
 
 void mt_hist::hist(vector<mt_range_t<f64>>& ranges, vector<i32>& numbers, const vector<f64>& data, i32 hist_bin_number) {
 	f64 max_value = mt_helper::compute_max<f64>((i32)data.size(), &data[0]);
-	max_value += max_value / 100;
-
 	f64 min_value = mt_helper::compute_min<f64>((i32)data.size(), &data[0]);
 
+	// The ranges are half open, so that they have to end after the greatest value.
+	f64 margin = std::max(std::fabs(max_value), max_value - min_value) / 100;
+	max_value += margin > 0 ? margin : 1;
+
 	f64 gap = (max_value - min_value) / hist_bin_number;
 
 	ranges.resize(hist_bin_number);
-- 
2.43.0


From 55fac2f24cc35096bf6486e4588fd3a430bca95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 129/206] fix: mt_longest_common_substring: the list of all
 beginnings held the ends

---
 .../dynamic_programming/mt_longest_common_substring.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..f04e539 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -55,8 +55,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -65,8 +65,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From ce5637845604ea2a48330fe42f304644222ff09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:41 +0000
Subject: [PATCH 130/206] fix: mt_longest_common_substring: a common part of
 length one at the front of the second text was not seen

---
 .../mt_longest_common_substring.h                    | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index f04e539..dac7008 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,15 +19,9 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
-							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
-						}
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						m_maxtrix[j * m_a_size + i] = (i > 0 && j > 0 ? m_maxtrix[(j - 1) * m_a_size + i - 1] : 0) + 1;
 					}
 
 					if (m_length < m_maxtrix[j * m_a_size + i]) {
-- 
2.43.0


From c39b4ec2bc47639218aa56a4b33955814a7c360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 131/206] fix: mt_helper: flip_vector exchanged everything with
 the last element

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index b01e507..99742e2 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -420,7 +420,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From a912b2b9add36d9063079be0cb31bb4b50f7bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 132/206] fix: mt_helper: instance_from_pointer did not take
 the size of its source

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 99742e2..f04b428 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -356,7 +356,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From 7a5f249e35ee4e9903d5146c97cc688b3063e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 133/206] fix: mt_helper: odd_even_sort took negative odd
 numbers for neither odd nor even

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index f04b428..f7260b7 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -373,12 +373,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -394,11 +394,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From 679884a68f9195cd21fd29ab03d06ded4dd2ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 134/206] fix: mt_helper: combination overflowed from thirteen
 elements on

---
 basicmath/include/mt_helper.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index f7260b7..da74279 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -255,7 +255,14 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+
+			// Every step gives a whole number, where the factorials leave the range of the type.
+			i64 res = 1;
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From a9efc64c645fc729c83d43fd1bb29cc02178ab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 135/206] fix: mt_helper: compare_value took a lesser unsigned
 number for the greater

---
 basicmath/include/mt_helper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index da74279..b950a9d 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -62,11 +62,9 @@ namespace basicmath {
 			} else if (typeid(T) == typeid(double)) {
 				return compare_double((double)a, (double)b);
 			} else {
-				T v = a - b;
-
-				if (v == 0) {
+				if (a == b) {
 					return 0;
-				} else if (v > 0) {
+				} else if (a > b) {
 					return 1;
 				} else {
 					return -1;
-- 
2.43.0


From 4227f310a9d4ffe7acdcbefa6a5c3674698b5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:59 +0000
Subject: [PATCH 136/206] fix: mt_block_memory: a fresh memory of blocks of one
 element crashed

---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..91e0a4d 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -108,7 +108,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From a516010590a0ad871e97e3280c933294f18c75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 137/206] fix: mt_top_k: a collector of none crashed

---
 basicmath/include/mt_top_k.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_top_k.h b/basicmath/include/mt_top_k.h
index b08d6f0..e04e1d7 100644
--- a/basicmath/include/mt_top_k.h
+++ b/basicmath/include/mt_top_k.h
@@ -28,7 +28,7 @@ namespace basicmath {
 					}
 				}
 
-			} else {
+			} else if (m_k > 0) {
 				if (m_want_big_data) {
 					if (val > m_datas[0]) {
 						m_datas[0] = val;
-- 
2.43.0


From 5b2fefa41b0153fc902a5a1ea06f3893c5ad16d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 138/206] fix: sys_strhelper: combine wrote beyond its buffer
 of 100 KB

---
 basicsys/src/sys_strhelper.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e61b0c1..02d4b4e 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -3,18 +3,30 @@
 
 
 string sys_strhelper::combine(const char* pszFormat, ...) {
-	char szBuffer[102400];
-
 	va_list ptr;
 	va_start(ptr, pszFormat);
 #ifdef _WIN32
-	vsprintf_s(szBuffer, sizeof(szBuffer) / sizeof(char), pszFormat, ptr);
+	int length = _vscprintf(pszFormat, ptr);
+#else
+	int length = vsnprintf(NULL, 0, pszFormat, ptr);
+#endif
+	va_end(ptr);
+
+	if (length <= 0) {
+		return string();
+	}
+
+	vector<char> buffer(length + 1);
+
+	va_start(ptr, pszFormat);
+#ifdef _WIN32
+	vsprintf_s(&buffer[0], buffer.size(), pszFormat, ptr);
 #else
-	vsprintf_s(szBuffer, pszFormat, ptr);
+	vsnprintf(&buffer[0], buffer.size(), pszFormat, ptr);
 #endif
 	va_end(ptr);
 
-	return string(szBuffer);
+	return string(&buffer[0]);
 }
 
 vector<string> sys_strhelper::split(const string& text, const string& split_tag) {
-- 
2.43.0


From 1ed8b03cf28889172ee9790a9a1ec09fc02a0180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 139/206] fix: sys_strhelper: split by an empty tag lost the
 text

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 02d4b4e..9716bd5 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -44,7 +44,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 	}
 
 	if (split_tag.empty()) {
-		elements.push_back(split_tag);
+		elements.push_back(text);
 		return;
 	}
 
-- 
2.43.0


From 51d772f46366cbfcc247e9010e09ed14b3d40c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 140/206] fix: sys_strhelper: split by a longer tag left the
 rest of the tag in the parts

---
 basicsys/src/sys_strhelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 9716bd5..cb9608a 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -58,7 +58,7 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 		} else {
 			elements.push_back(text.substr(index, tempIndex - index));
 
-			index = tempIndex + 1;
+			index = tempIndex + split_tag.size();
 		}
 	}
 }
-- 
2.43.0


From 2917f0f7a5a3902ab50ddb027928ad0488f603cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 141/206] fix: sys_strhelper: replace of an empty text did not
 end

---
 basicsys/src/sys_strhelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index cb9608a..5b56c9b 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -64,6 +64,10 @@ void sys_strhelper::split(vector<string>& elements, const string& text, const st
 }
 
 void sys_strhelper::replace(string& text, const string& newValue, const string& oldValue) {
+	if (oldValue.empty()) {
+		return;
+	}
+
 	for(string::size_type pos = 0; pos != string::npos; pos += newValue.length())   {     
 		if ((pos = text.find(oldValue, pos)) != string::npos) {
 			text.replace(pos, oldValue.length(), newValue);     
-- 
2.43.0


From 325677ac10cbff97c1b7a7756fa15426643cbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 142/206] fix: sys_strhelper: levenshtein_distance ignored the
 costs for an empty word

---
 basicsys/src/sys_strhelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 5b56c9b..61fa7e6 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -92,9 +92,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	//Process the exception
 	if (word1.empty()) {
-		return (int)word2.size();
+		return (int)word2.size() * insertCost;
 	} else if (word2.empty()) {
-		return (int)word1.size();
+		return (int)word1.size() * deleteCost;
 	}
 
 	//Select the small string as base to reduce the memory requirement
-- 
2.43.0


From 21584d4d0a39f65b9c93f894be9b70835104cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 143/206] fix: sys_strhelper: levenshtein_distance exchanged
 the costs of inserting and deleting

---
 basicsys/src/sys_strhelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index 61fa7e6..e149eaf 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -115,6 +115,9 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 
 	if (word1.size() > word2.size()) {
 		swap(smallString, largeString);
+	} else {
+		//The large string is turned into the small one, which is the way back
+		swap(insertCost, deleteCost);
 	}
 
 	wstring::size_type size1 = largeString->size();
-- 
2.43.0


From 848c03eb73d7085dc338a6a21d22305f8cd51048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 144/206] fix: sys_strhelper: levenshtein_distance overflowed
 its small types and leaked its buffers

---
 basicsys/src/sys_strhelper.cpp | 86 +++++++++++-----------------------
 1 file changed, 28 insertions(+), 58 deletions(-)

diff --git a/basicsys/src/sys_strhelper.cpp b/basicsys/src/sys_strhelper.cpp
index e149eaf..5181f71 100644
--- a/basicsys/src/sys_strhelper.cpp
+++ b/basicsys/src/sys_strhelper.cpp
@@ -124,66 +124,36 @@ int sys_strhelper::levenshtein_distance(const string& word1, const string& word2
 	wstring::size_type size2 = smallString->size();
 	int dist = 0;
 
-#define STRING_DEFINE_BUFFER_ALLOC_STATIC(dataType, bufferSize)	\
-	dataType buffer1[bufferSize];	\
-	dataType buffer2[bufferSize];	\
-	dataType* p = buffer1;	\
-	dataType* q = buffer2;	\
-
-#define STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(dataType, bufferSize)	\
-	dataType* p = new dataType[bufferSize];	\
-	dataType* q = new dataType[bufferSize];	\
-
-#define STRING_DEFINE_CALCULATE_DIST(dataType)	\
-	p[0] = 0;	\
-	for (string::size_type i = 1; i <= size2; ++i) {	\
-	p[i] = p[i - 1] + (dataType)insertCost;	\
-	}	\
-	for (string::size_type i = 1; i <= size1; ++i) {	\
-	q[0] = p[0] + deleteCost;	\
-	for (string::size_type j = 1; j <= size2; ++j) {	\
-	dataType d_del = p[j] + (dataType)deleteCost;	\
-	dataType d_ins = q[j - 1] + (dataType)insertCost;	\
-	dataType d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : (dataType)replaceCost);	\
-	q[j] = d_del;	\
-	if (d_ins < q[j]) {	\
-	q[j] = d_ins;	\
-	}	\
-	if (d_replace < q[j]) {	\
-	q[j] = d_replace;	\
-	}	\
-	}	\
-	swap(p, q);	\
-	}	\
-	dist = (int)p[size2];	\
-
-	//optimization
-	if (size2 < 16) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 16);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 32) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 32);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 64) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 64);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 256) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint8_t, 256);
-		STRING_DEFINE_CALCULATE_DIST(uint8_t);
-	} else if (size2 < 1024) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 1024);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < 4048) {
-		STRING_DEFINE_BUFFER_ALLOC_STATIC(uint16_t, 4048);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else if (size2 < SHRT_MAX) {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint16_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint16_t);
-	} else {
-		STRING_DEFINE_BUFFER_ALLOC_DYMANAIC(uint32_t, size2 + 1);
-		STRING_DEFINE_CALCULATE_DIST(uint32_t);
+	//A distance may exceed the length of both words
+	vector<int> buffer1(size2 + 1);
+	vector<int> buffer2(size2 + 1);
+	int* p = &buffer1[0];
+	int* q = &buffer2[0];
+
+	p[0] = 0;
+	for (string::size_type i = 1; i <= size2; ++i) {
+		p[i] = p[i - 1] + insertCost;
 	}
 
+	for (string::size_type i = 1; i <= size1; ++i) {
+		q[0] = p[0] + deleteCost;
+		for (string::size_type j = 1; j <= size2; ++j) {
+			int d_del = p[j] + deleteCost;
+			int d_ins = q[j - 1] + insertCost;
+			int d_replace = p[j - 1] + ((*largeString)[i - 1] == (*smallString)[j - 1] ? 0 : replaceCost);
+			q[j] = d_del;
+			if (d_ins < q[j]) {
+				q[j] = d_ins;
+			}
+			if (d_replace < q[j]) {
+				q[j] = d_replace;
+			}
+		}
+		swap(p, q);
+	}
+
+	dist = p[size2];
+
 	return dist;
 }
 
-- 
2.43.0


From 8d589f85bf612fbefb8feccf648b59f9253476f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:47 +0000
Subject: [PATCH 145/206] fix: sys_path: get_file_extend_name took a point in a
 directory for the extension

---
 basicsys/src/sys_path.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_path.cpp b/basicsys/src/sys_path.cpp
index 3891a4a..63b73fc 100644
--- a/basicsys/src/sys_path.cpp
+++ b/basicsys/src/sys_path.cpp
@@ -286,10 +286,11 @@ string sys_path::get_file_extend_name(const string& path) {
 		return string((""));
 	}
 
-	string::size_type index = path.rfind('.');
+	string name = get_file_name(path);
+	string::size_type index = name.rfind('.');
 
 	if (string::npos != index) {
-		string extend_name = path.substr(index);
+		string extend_name = name.substr(index);
 		sys_strhelper::lower(extend_name);
 		return extend_name;
 	} else {
-- 
2.43.0


From 240709885650bef9d139ac7309e0cea7f205e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 146/206] fix: sys_strconvert: utf8_from_utf16 and
 utf16_from_utf8 gave nothing but on Windows

---
 basicsys/src/sys_strconvert.cpp | 52 +++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index 5ba431e..67fecf1 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -7,13 +7,38 @@
 #endif
 
 string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
+#ifndef _WIN32
+	// A character of more than 16 bits is one element here.
+	string res;
+
+	for (wstring::size_type i = 0; i < utf16.size(); ++i) {
+		u32 c = (u32)utf16[i];
+
+		if (c < 0x80) {
+			res += (char)c;
+		} else if (c < 0x800) {
+			res += (char)(0xC0 | (c >> 6));
+			res += (char)(0x80 | (c & 0x3F));
+		} else if (c < 0x10000) {
+			res += (char)(0xE0 | (c >> 12));
+			res += (char)(0x80 | ((c >> 6) & 0x3F));
+			res += (char)(0x80 | (c & 0x3F));
+		} else {
+			res += (char)(0xF0 | (c >> 18));
+			res += (char)(0x80 | ((c >> 12) & 0x3F));
+			res += (char)(0x80 | ((c >> 6) & 0x3F));
+			res += (char)(0x80 | (c & 0x3F));
+		}
+	}
+
+	return res;
+#else
 	int nLengthW = (int)utf16.size() + 1;		 
 	int nLengthA = nLengthW*4;
 
 	char* mBuffer = new char[nLengthA];
 	memset(mBuffer, 0, nLengthA);
 
-#ifdef _WIN32
 	BOOL bFailed=(0 == ::WideCharToMultiByte( CP_UTF8, 0, utf16.c_str(), nLengthW, mBuffer, nLengthA, NULL, NULL ));
 	if (bFailed)
 	{
@@ -27,21 +52,38 @@ string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
 		}			
 	}
 
-#endif
-
 	string res(mBuffer);
 	delete[] mBuffer;
 	return res;
+#endif
 }
 
 wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
+#ifndef _WIN32
+	wstring res;
+
+	for (string::size_type i = 0; i < utf8.size();) {
+		u8 first = (u8)utf8[i];
+		i32 follow = first < 0x80 ? 0 : first < 0xC0 ? -1 : first < 0xE0 ? 1 : first < 0xF0 ? 2 : first < 0xF8 ? 3 : -1;
+		u32 c = follow > 0 ? first & (0x3F >> follow) : first;
+		++i;
+
+		for (; follow > 0 && i < utf8.size() && ((u8)utf8[i] & 0xC0) == 0x80; --follow, ++i) {
+			c = (c << 6) | ((u8)utf8[i] & 0x3F);
+		}
+
+		// Bytes that are no character
+		res += follow == 0 ? (wchar_t)c : (wchar_t)0xFFFD;
+	}
+
+	return res;
+#else
 	int nLengthA = (int)utf8.size() + 1;		 
 	int nLengthW = nLengthA;
 
 	wchar_t* mBuffer = new wchar_t[nLengthW];
 	memset(mBuffer, 0, nLengthW * sizeof(wchar_t));
 
-#ifdef _WIN32
 	BOOL bFailed=(0 == ::MultiByteToWideChar( CP_UTF8, 0, utf8.c_str(), nLengthA, mBuffer, nLengthW));
 	if (bFailed)
 	{
@@ -54,11 +96,11 @@ wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
 			bFailed=(0 == ::MultiByteToWideChar( CP_UTF8, 0, utf8.c_str(), nLengthA, mBuffer, nLengthW));
 		}			
 	}
-#endif
 
 	wstring res(mBuffer);
 	delete[] mBuffer;
 	return res;
+#endif
 }
 
 string sys_strconvert::local_from_utf16(const wstring& utf16) {
-- 
2.43.0


From b50a66390b5fe3623bd69f9191466d9b62386637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:26 +0000
Subject: [PATCH 147/206] fix: sys_strconvert: the local conversions changed
 the locale of the whole program

---
 basicsys/src/sys_strconvert.cpp | 60 +++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/basicsys/src/sys_strconvert.cpp b/basicsys/src/sys_strconvert.cpp
index 67fecf1..4bf160e 100644
--- a/basicsys/src/sys_strconvert.cpp
+++ b/basicsys/src/sys_strconvert.cpp
@@ -3,7 +3,40 @@
 #ifdef _WIN32
 #include <windows.h>
 #else
+#include <errno.h>
 #include <locale.h>
+#include <stdlib.h>
+#include <new>
+#ifdef __APPLE__
+#include <xlocale.h>
+#endif
+
+// Gives the calling thread the locale of the user. The locale of the program stays as it is.
+class user_locale {
+public:
+
+	user_locale() {
+		m_user = newlocale(LC_ALL_MASK, "", (locale_t)0);
+
+		if (m_user == (locale_t)0 && errno == ENOMEM) {
+			throw std::bad_alloc();
+		}
+
+		m_old = m_user != (locale_t)0 ? uselocale(m_user) : (locale_t)0;
+	}
+
+	~user_locale() {
+		if (m_user != (locale_t)0) {
+			uselocale(m_old);
+			freelocale(m_user);
+		}
+	}
+
+private:
+
+	locale_t m_user;
+	locale_t m_old;
+};
 #endif
 
 string sys_strconvert::utf8_from_utf16(const wstring& utf16) {
@@ -104,13 +137,19 @@ wstring sys_strconvert::utf16_from_utf8(const string& utf8) {
 }
 
 string sys_strconvert::local_from_utf16(const wstring& utf16) {
+#ifndef _WIN32
+	user_locale locale;
+	vector<char> buffer((utf16.size() + 1) * 4, 0);
+	wcstombs(&buffer[0], utf16.c_str(), buffer.size());
+
+	return string(&buffer[0]);
+#else
 	int nLengthW = (int)utf16.size() + 1;		 
 	int nLengthA = nLengthW*4;
 
 	char* mBuffer = new char[nLengthA];
 	memset(mBuffer, 0, nLengthA);
 
-#ifdef _WIN32
 	BOOL bFailed=(0 == ::WideCharToMultiByte(CP_THREAD_ACP, 0, utf16.c_str(), nLengthW, mBuffer, nLengthA, NULL, NULL ));
 	if (bFailed)
 	{
@@ -124,24 +163,26 @@ string sys_strconvert::local_from_utf16(const wstring& utf16) {
 		}			
 	}
 
-
-#else
-	setlocale(LC_ALL, "");
-	wcstombs(mBuffer, utf16.c_str(), nLengthA);
-#endif
 	string res(mBuffer);
 	delete[] mBuffer;
 	return res;
+#endif
 }
 
 wstring sys_strconvert::utf16_from_local(const string& ansi) {
+#ifndef _WIN32
+	user_locale locale;
+	vector<wchar_t> buffer(ansi.size() + 1, 0);
+	mbstowcs(&buffer[0], ansi.c_str(), buffer.size());
+
+	return wstring(&buffer[0]);
+#else
 	int nLengthA = (int)ansi.size() + 1;		 
 	int nLengthW = nLengthA;
 
 	wchar_t* mBuffer = new wchar_t[nLengthW];
 	memset(mBuffer, 0, nLengthW * sizeof(wchar_t));
 
-#ifdef _WIN32
 
 	BOOL bFailed=(0 == ::MultiByteToWideChar(CP_THREAD_ACP, 0, ansi.c_str(), nLengthA, mBuffer, nLengthW));
 	if (bFailed)
@@ -155,15 +196,12 @@ wstring sys_strconvert::utf16_from_local(const string& ansi) {
 			bFailed=(0 == ::MultiByteToWideChar(CP_THREAD_ACP, 0, ansi.c_str(), nLengthA, mBuffer, nLengthW));
 		}			
 	}
-#else
-	setlocale(LC_ALL, "");
-	mbstowcs(mBuffer, ansi.c_str(), nLengthW);
-#endif
 
 	wstring res(mBuffer);
 	delete[] mBuffer;
 
 	return res;
+#endif
 }
 
 string sys_strconvert::local_from_utf8(const string& utf8) {
-- 
2.43.0


From 266c07096b48d0b3ef7318437193cba4bcbf53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 148/206] fix: mt_rect: moving a rectangle back moved it
 forward, and most operators did not compile

---
 basicmath/include/mt_rect_t.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..32fa232 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
-- 
2.43.0


From fb52e7f6b190a12eaf4c5a17ffea69e99f450383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 149/206] fix: mt_rect: intersecting, containing, clamping and
 scaling did not compile

---
 basicmath/include/mt_rect_t.h | 76 +++++++++++++++++------------------
 1 file changed, 38 insertions(+), 38 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index 32fa232..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From 9597bf847d70b212bdf3dc4a7767573a405edeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 150/206] fix: mt_rect: appending an empty rectangle stretched
 the other one to its corner

---
 basicmath/include/mt_rect_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index cc1682b..b8ba1c4 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -351,7 +351,7 @@ public:
 	void adjust_by_append_rect(const mt_rect_t<T>& appendRect) {
 		if (empty()) {
 			*this = appendRect;
-		} else {
+		} else if (!appendRect.empty()) {
 			T minX = min(m_left, appendRect.m_left);
 			T minY = min(m_top, appendRect.m_top);
 			T maxX = max(right(), appendRect.right());
-- 
2.43.0


From 5097429ee7f85148d92a135ec46f672910f19005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 151/206] fix: img_connected_component: a copy shared its
 points with the original and an assignment lost the rectangle

---
 basicimg/include/img_connected_component.h |  2 ++
 basicimg/src/img_connected_component.cpp   | 27 ++++++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 58d35fb..327f4b6 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -101,6 +101,8 @@ namespace basicimg {
 
 		img_connected_component();
 
+		img_connected_component(const img_connected_component& other);
+
 		~img_connected_component();
 
 		void operator = (const img_connected_component& other);
diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 0eb2242..5de7160 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -33,6 +33,13 @@ img_connected_component::img_connected_component()
 
 }
 
+img_connected_component::img_connected_component(const img_connected_component& other)
+	: m_points(NULL)
+	, m_size(0)
+	, m_share_memory(sys_false) {
+	*this = other;
+}
+
 img_connected_component::~img_connected_component() {
 	release();
 }
@@ -42,35 +49,35 @@ void img_connected_component::operator = (const img_connected_component& other)
 		return;
 	}
 
-	release();
-	m_share_memory = other.m_share_memory;
-
 	if (other.m_share_memory) {
-		m_points = other.m_points;
-		m_size = other.m_size;
-
+		init(other.m_points, other.m_size);
 	} else {
-		m_size = other.m_size;
-		m_points = new mt_point[m_size];
+		init(other.m_size);
 
 		for (i32 i = 0; i < m_size; ++i) {
 			m_points[i] = other.m_points[i];
 		}
 	}
+
+	m_rect = other.m_rect;
 }
 
 void img_connected_component::release() {
 	if (!m_share_memory && m_points != NULL) {
 		delete[] m_points;
 	}
+
+	m_points = NULL;
+	m_size = 0;
+	m_rect = mt_rect();
 }
 
 void img_connected_component::init(i32 size) {
 	release();
 
-	m_size = size;
-	m_points = new mt_point[m_size];
 	m_share_memory = sys_false;
+	m_points = new mt_point[size];
+	m_size = size;
 }
 
 void img_connected_component::init(mt_point* memory_start, i32 size) {
-- 
2.43.0


From 3685ec3c37270ad1f8673a2da32bad2737003ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:02 +0000
Subject: [PATCH 152/206] fix: img_multi_connected_components: two copies
 released the same points

---
 basicimg/include/img_connected_component.h | 51 ++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 327f4b6..f79d666 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -126,10 +126,61 @@ namespace basicimg {
 			m_cache_points = NULL;
 		}
 
+		img_multi_connected_components(const img_multi_connected_components& other) {
+			m_cache_points = NULL;
+			*this = other;
+		}
+
 		~img_multi_connected_components() {
 			basicsys_delete_array(m_cache_points);
 		}
 
+		void operator = (const img_multi_connected_components& other) {
+			if (this == &other) {
+				return;
+			}
+
+			release();
+			m_ccs = other.m_ccs;
+
+			i32 size = 0;
+
+			for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+				if (m_ccs[i].m_share_memory) {
+					size += m_ccs[i].m_size;
+				}
+			}
+
+			if (size == 0) {
+				return;
+			}
+
+			try {
+				m_cache_points = new mt_point[size];
+			} catch (...) {
+				m_ccs.clear();
+				throw;
+			}
+
+			mt_point* points = m_cache_points;
+
+			for (i32 i = 0; i < (i32)m_ccs.size(); ++i) {
+				if (m_ccs[i].m_share_memory) {
+					for (i32 k = 0; k < m_ccs[i].m_size; ++k) {
+						points[k] = m_ccs[i].m_points[k];
+					}
+
+					m_ccs[i].m_points = points;
+					points += m_ccs[i].m_size;
+				}
+			}
+		}
+
+		void release() {
+			m_ccs.clear();
+			basicsys_delete_array(m_cache_points);
+		}
+
 		vector<img_connected_component> m_ccs;
 		mt_point* m_cache_points;
 	};
-- 
2.43.0


From a0151fe0316e221489106f52aa2d2cd6d52e45b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 153/206] fix: ml_connected_component_base: the column was
 taken for a channel, so that pixels were read from wrong places

---
 basicimg/include/img_connected_component.h | 30 +++++++++++-----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index f79d666..72656c5 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -5,7 +5,7 @@
 #define basicimg_cc_n_begin()	\
 	normal_connected_info preInfo;\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = start_image_data;	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
@@ -58,8 +58,8 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
-	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1);	\
-	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);	\
+	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1, 0);	\
+	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
 	image_pixel_type* other_image_data;	\
 	b8 connect_condition = false;	\
@@ -238,7 +238,7 @@ namespace basicimg {
 		virtual void normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 2000);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 			image_pixel_type* image_data = start_image_data;
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
@@ -251,7 +251,7 @@ namespace basicimg {
 
 			for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 				for (i32 col = 1; col <= preInfo.m_activate_rect.m_width; ++col) {
-					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+					basiclog_assert2(image_data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 					if (0 == image_data->m_visit_flag) {
 						startPoint.m_x = col - 1 + preInfo.m_activate_rect.m_left;
@@ -303,9 +303,9 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
-			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1);
+			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
-			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1);
+			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
 			image_pixel_type* top_image_data;
 			image_pixel_type* other_image_data;
 			b8 connect_condition = false;
@@ -442,7 +442,7 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left);
+				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -512,8 +512,8 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
+					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -564,7 +564,7 @@ namespace basicimg {
 					for (i32 row = 0; row < src.size()[0]; ++row) {
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
-							basiclog_assert2(image_data == src.ptr<T>(row, col));	
+							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
 
 							if (*image_data++ != maskInfo.m_mask_value) {
 								rowMax = max(rowMax, row);
@@ -591,7 +591,7 @@ namespace basicimg {
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
 					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin);
+					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -601,7 +601,7 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
-						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0));
+						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
 						data->m_visit_flag = 1;
 						++data;
@@ -609,8 +609,8 @@ namespace basicimg {
 						i32 col = 1;
 						for (; col <= preInfo.m_activate_rect.m_width; ++col) {
 
-							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin));
-							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col));
+							basiclog_assert2(rawData == src.ptr<T>(row - 1 + rowMin, col - 1 + colMin, 0));
+							basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, col, 0));
 
 							if (*rawData != maskInfo.m_mask_value) {
 								data->m_visit_flag = 0;
-- 
2.43.0


From 2edac4de60dfe9323979a9c78c73dc969bec7cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 154/206] fix: ml_connected_component_base: padded rows were
 read from wrong places and a mask image left the lower border open

---
 basicimg/include/img_connected_component.h | 36 +++++++++-------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 72656c5..7595b72 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -433,8 +433,6 @@ namespace basicimg {
 					preInfo.m_activate_rect = maskInfo.m_mask_rect;
 				}
 
-				i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - preInfo.m_activate_rect.m_width;
-
 				preInfo.m_temp_image = mt_mat((preInfo.m_activate_rect.m_height + 2) * sizeof(image_pixel_type), (preInfo.m_activate_rect.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
 				preInfo.m_temp_image.size()[1] = preInfo.m_activate_rect.m_width + 2;
 				preInfo.m_temp_image.size()[0] = preInfo.m_activate_rect.m_height + 2;
@@ -442,7 +440,6 @@ namespace basicimg {
 				temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
 				image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
-				const T* rawData = src.ptr<T>(preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 					data->m_visit_flag = 1;
@@ -452,6 +449,8 @@ namespace basicimg {
 				data += temp_image_append_offset;
 
 				for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
+					const T* rawData = src.ptr<T>(row - 1 + preInfo.m_activate_rect.m_top, preInfo.m_activate_rect.m_left, 0);
+
 					data->m_visit_flag = 1;
 					++data;
 
@@ -465,7 +464,6 @@ namespace basicimg {
 					data->m_visit_flag = 1;
 					++data;
 					data += temp_image_append_offset;
-					rawData += srcByteOffset;
 				}
 
 				for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
@@ -508,12 +506,8 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
-					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
-					maskData = maskInfo.m_mask_image.template ptr<u8>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -523,6 +517,9 @@ namespace basicimg {
 					data += temp_image_append_offset;
 
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
+						const T* rawData = src.ptr<T>(row - 1 + rowMin, colMin, 0);
+						maskData = maskInfo.m_mask_image.template ptr<u8>(row - 1 + rowMin, colMin, 0);
+
 						data->m_visit_flag = 1;
 						++data;
 
@@ -548,20 +545,21 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-						maskData += rawImageAppendOffset;
-						rawData += rawImageAppendOffset;
 					}
-				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
-					i32 srcByteOffset = (i32)src.step()[0] / sizeof(T) - src.size()[1];
 
+					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
+						data->m_visit_flag = 1;
+						++data;
+					}
+				} else if (img_Mask_Type_Value == maskInfo.m_mask_type) {
 					i32 rowMax = 0;
 					i32 colMax = 0;
 					i32 rowMin = src.size()[0];
 					i32 colMin = src.size()[1];
 
-					T* image_data = (T*)src.data();
-
 					for (i32 row = 0; row < src.size()[0]; ++row) {
+						const T* image_data = src.ptr<T>(row, 0, 0);
+
 						for (i32 col = 0; col < src.size()[1]; ++col) {
 
 							basiclog_assert2(image_data == src.ptr<T>(row, col, 0));	
@@ -573,8 +571,6 @@ namespace basicimg {
 								colMin = min(colMin, col);
 							}
 						}
-
-						image_data += srcByteOffset;
 					}
 
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
@@ -586,12 +582,8 @@ namespace basicimg {
 					preInfo.m_temp_image.step()[1] = sizeof(image_pixel_type);
 					temp_image_append_offset = (i32)preInfo.m_temp_image.step()[0] / sizeof(image_pixel_type) - preInfo.m_temp_image.size()[1];
 
-					i32 rawImageAppendOffset = (i32)src.step()[0] / sizeof(T) - targetImageSize.m_width;
-
 					image_pixel_type* data = (image_pixel_type*)preInfo.m_temp_image.data();
 
-					//��λ��Ч��������ĵ�һ������
-					const T* rawData = src.ptr<T>(rowMin, colMin, 0);
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
 						data->m_visit_flag = 1;
@@ -603,6 +595,8 @@ namespace basicimg {
 					for (i32 row = 1; row <= preInfo.m_activate_rect.m_height; ++row) {
 						basiclog_assert2(data == preInfo.m_temp_image.template ptr<image_pixel_type>(row, 0, 0));
 
+						const T* rawData = src.ptr<T>(row - 1 + rowMin, colMin, 0);
+
 						data->m_visit_flag = 1;
 						++data;
 
@@ -627,8 +621,6 @@ namespace basicimg {
 						data->m_visit_flag = 1;
 						++data;
 						data += temp_image_append_offset;
-
-						rawData += rawImageAppendOffset;
 					}
 
 					for (i32 col = 0; col < preInfo.m_temp_image.size()[1]; ++col) {
-- 
2.43.0


From 582b36b4b42436dba0c9cbfd674e4249fc0e2d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 155/206] fix: ml_connected_component_base: a mask that covers
 nothing or leaves the image was read out of bounds

---
 basicimg/include/img_connected_component.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 7595b72..dae505e 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -430,7 +430,11 @@ namespace basicimg {
 				if (img_Mask_Type_Null == maskInfo.m_mask_type) {
 					preInfo.m_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
 				} else {
-					preInfo.m_activate_rect = maskInfo.m_mask_rect;
+					mt_rect image_rect(0, 0, src.size()[1], src.size()[0]);
+
+					if (!image_rect.is_intersect(preInfo.m_activate_rect, maskInfo.m_mask_rect)) {
+						preInfo.m_activate_rect = mt_rect();
+					}
 				}
 
 				preInfo.m_temp_image = mt_mat((preInfo.m_activate_rect.m_height + 2) * sizeof(image_pixel_type), (preInfo.m_activate_rect.m_width + 2) * sizeof(image_pixel_type), mt_U8C1);
@@ -497,6 +501,13 @@ namespace basicimg {
 						maskData += maskOffset;
 					}
 
+					if (rowMax < rowMin) {
+						rowMin = 0;
+						colMin = 0;
+						rowMax = -1;
+						colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -573,6 +584,13 @@ namespace basicimg {
 						}
 					}
 
+					if (rowMax < rowMin) {
+						rowMin = 0;
+						colMin = 0;
+						rowMax = -1;
+						colMax = -1;
+					}
+
 					mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 					preInfo.m_activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From f0cbd46cd981f8031fdaa140fccf472df5f28e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 156/206] fix: ml_connected_component_base: a result used again
 leaked its points and kept old components and rectangles

---
 basicimg/include/img_connected_component.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index dae505e..427f141 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -372,6 +372,18 @@ namespace basicimg {
 
 		class normal_connected_info {
 		public:
+			normal_connected_info() 
+				: m_cache_points(NULL)
+				, m_cache_point_index(0)
+				, m_stack_helper(NULL) {
+
+			}
+
+			~normal_connected_info() {
+				basicsys_delete_array(m_stack_helper);
+				basicsys_delete_array(m_cache_points);
+			}
+
 			mt_point* m_cache_points;
 			i32 m_cache_point_index;
 			vector<mt_point> m_regions;
@@ -661,13 +673,16 @@ namespace basicimg {
 		}
 
 		void normal_extract_stop(img_multi_connected_components& ccs, normal_connected_info& preInfo) {
+			ccs.release();
+
 			if (preInfo.m_regions.back().m_x == preInfo.m_regions.back().m_y) {
 				preInfo.m_regions.pop_back();
 			}
 
 			if (!preInfo.m_regions.empty()) {
-				ccs.m_cache_points = preInfo.m_cache_points;
 				ccs.m_ccs.resize(preInfo.m_regions.size());
+				ccs.m_cache_points = preInfo.m_cache_points;
+				preInfo.m_cache_points = NULL;
 
 				for (i32 i = 0; i < (i32)preInfo.m_regions.size(); ++i) {
 					ccs.m_ccs[i].m_share_memory = sys_true;
-- 
2.43.0


From df29a08003d785da83ee1fedd5b31ed61b0237c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 157/206] fix: ml_connected_component_base: the component of a
 point was lost and its memory released wrongly

---
 basicimg/include/img_connected_component.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 427f141..1d7300d 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -92,8 +92,7 @@
 		}	\
 	}	\
 	currentRegion->m_y = preInfo.m_cache_point_index;	\
-	single_extract_stop(cc, preInfo);\
-	delete preInfo.m_cache_points;
+	single_extract_stop(cc, preInfo);
 
 namespace basicimg {
 	class img_connected_component {
@@ -317,7 +316,7 @@ namespace basicimg {
 			currentRegion = &preInfo.m_regions.back();
 			image_data->m_visit_flag = 1;
 			currentRegion->m_x = preInfo.m_cache_point_index;
-			*preInfo.m_cache_points++ = startPoint;
+			preInfo.m_cache_points[preInfo.m_cache_point_index++] = startPoint;
 
 			preInfo.m_stack_helper[++preInfo.m_stack_top_index] = image_data;
 
@@ -339,14 +338,13 @@ namespace basicimg {
 						offset = (i32)(other_image_data - start_image_data);
 						offset_y = offset / preInfo.m_temp_image.size()[1];	
 						offset_x = offset - offset_y * preInfo.m_temp_image.size()[1];	
-						*preInfo.m_cache_points++ = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
+						preInfo.m_cache_points[preInfo.m_cache_point_index++] = mt_point(offset_x + preInfo.m_activate_rect.m_left, offset_y + preInfo.m_activate_rect.m_top);	
 					}
 				}
 			}
 
 			currentRegion->m_y = preInfo.m_cache_point_index;
 			single_extract_stop(cc, preInfo);
-			delete preInfo.m_cache_points;
 		}
 
 		virtual void ture_normal_extract(img_multi_connected_components& ccs, const mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
@@ -355,7 +353,7 @@ namespace basicimg {
 			basicimg_cc_n_end();
 		}
 
-		virtual void ture_single_extract(img_connected_component cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
+		virtual void ture_single_extract(img_connected_component& cc, const mt_point& startPoint, const mt_mat& image, const img_mask_info<T>& maskInfo /* = MaskInfo<T>() */, img_Connected_Type connect_type /* = img_Connected_Type_8_Neibour */) {
 			basicimg_cc_s_begin();
 			connect_condition = true;
 			basicimg_cc_s_end();
@@ -702,9 +700,7 @@ namespace basicimg {
 		}
 
 		void single_extract_stop(img_connected_component& cc, normal_connected_info& preInfo) {
-			cc.m_share_memory = sys_false;
-			cc.m_size = preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x;
-			cc.m_points = new mt_point[cc.m_size];
+			cc.init(preInfo.m_regions[0].m_y - preInfo.m_regions[0].m_x);
 
 			for (i32 j = preInfo.m_regions[0].m_x, k = 0; j < preInfo.m_regions[0].m_y; ++j, ++k) {
 				cc.m_points[k] = preInfo.m_cache_points[j];
-- 
2.43.0


From d81b39475b5eb2e4f02b3f655628465d2ef3a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 158/206] fix: ml_connected_component_base: a start point
 outside of the mask was extracted, one outside of the image written to

---
 basicimg/include/img_connected_component.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/basicimg/include/img_connected_component.h b/basicimg/include/img_connected_component.h
index 1d7300d..1b5bfb9 100644
--- a/basicimg/include/img_connected_component.h
+++ b/basicimg/include/img_connected_component.h
@@ -58,6 +58,10 @@
 #define basicimg_cc_s_begin()	\
 	normal_connected_info preInfo;	\
 	normal_extract_start(preInfo, image, maskInfo, connect_type, 1);	\
+	if (!is_covered(preInfo, startPoint)) {	\
+		cc.release();	\
+		return;	\
+	}	\
 	image_pixel_type* start_image_data = preInfo.m_temp_image.ptr<image_pixel_type>(1, 1, 0);	\
 	image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);	\
 	image_pixel_type* top_image_data;	\
@@ -302,6 +306,12 @@ namespace basicimg {
 		virtual void single_extract(img_connected_component& cc, const mt_point& startPoint, mt_mat& image, const img_mask_info<T>& maskInfo = img_mask_info<T>(), img_Connected_Type connect_type = img_Connected_Type_8_Neibour) {
 			normal_connected_info preInfo;
 			normal_extract_start(preInfo, image, maskInfo, connect_type, 1);
+
+			if (!is_covered(preInfo, startPoint)) {
+				cc.release();
+				return;
+			}
+
 			image_pixel_type* start_image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(1, 1, 0);
 
 			image_pixel_type* image_data = preInfo.m_temp_image.template ptr<image_pixel_type>(startPoint.m_y - preInfo.m_activate_rect.m_top + 1, startPoint.m_x - preInfo.m_activate_rect.m_left + 1, 0);
@@ -670,6 +680,17 @@ namespace basicimg {
 			preInfo.m_cache_points = new mt_point[area];
 		}
 
+		b8 is_covered(const normal_connected_info& preInfo, const mt_point& point) const {
+			i32 row = point.m_y - preInfo.m_activate_rect.m_top;
+			i32 col = point.m_x - preInfo.m_activate_rect.m_left;
+
+			if (row < 0 || col < 0 || row >= preInfo.m_activate_rect.m_height || col >= preInfo.m_activate_rect.m_width) {
+				return sys_false;
+			}
+
+			return 0 == preInfo.m_temp_image.template ptr<image_pixel_type>(row + 1, col + 1, 0)->m_visit_flag;
+		}
+
 		void normal_extract_stop(img_multi_connected_components& ccs, normal_connected_info& preInfo) {
 			ccs.release();
 
-- 
2.43.0


From 213f3326539a780763a2e41594dc8731bf07994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 159/206] fix: img_connected_component_helper: a colour image
 came out grey and components beyond the region were drawn out of bounds

---
 basicimg/src/img_connected_component.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_connected_component.cpp b/basicimg/src/img_connected_component.cpp
index 5de7160..36db779 100644
--- a/basicimg/src/img_connected_component.cpp
+++ b/basicimg/src/img_connected_component.cpp
@@ -101,7 +101,7 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 	vector<img_connected_component*> cc_pointers;
 	mt_helper::pointer_from_instance(cc_pointers, ccs);
 
-	return image_from_connected_component(cc_pointers, roi, forground_color, background_color);
+	return image_from_connected_component(cc_pointers, roi, forground_color, background_color, gray);
 }
 
 mt_mat img_connected_component_helper::image_from_connected_component(const vector<img_connected_component*>& ccs, const mt_rect& roi, const mt_scalar& forground_color /* = img_Color_Black */, const mt_scalar& background_color /* = img_Color_White */, b8 gray) {
@@ -111,7 +111,11 @@ mt_mat img_connected_component_helper::image_from_connected_component(const vect
 		const mt_point* pts = ccs[i]->m_points;
 
 		for (int j = 0; j < ccs[i]->m_size; ++j) {
-			res.set(forground_color, pts[j].m_y - roi.m_top, pts[j].m_x - roi.m_left);
+			mt_point current_pt(pts[j].m_x - roi.m_left, pts[j].m_y - roi.m_top);
+
+			if (img_img::point_in_image(current_pt, res)) {
+				res.set(forground_color, current_pt.m_y, current_pt.m_x);
+			}
 		}
 	}
 
-- 
2.43.0


From 5496b9cc254ea22e4f84873d7d6ddff19fd9cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 160/206] fix: img_mser_result: the channel image took the
 levels of the other polarity and missed regions of the last level

---
 basicimg/src/img_mser_result.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_mser_result.cpp b/basicimg/src/img_mser_result.cpp
index 19935f8..accc65c 100644
--- a/basicimg/src/img_mser_result.cpp
+++ b/basicimg/src/img_mser_result.cpp
@@ -70,7 +70,7 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 			for (int k = 0; k < (int)m_msers[0][j].m_cc.m_size; ++k) {
 				const mt_point& pt = m_msers[0][j].m_cc.m_points[k];
 
-				if (m_msers[0][j].m_level < channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
+				if (channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) < 0 || m_msers[0][j].m_level < channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
 					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
@@ -83,8 +83,8 @@ img_mser_channel_image img_mser_result::generate_mser_channel_image(const mt_mat
 			for (int k = 0; k < (int)m_msers[1][j].m_cc.m_size; ++k) {
 				const mt_point& pt = m_msers[1][j].m_cc.m_points[k];
 
-				if (m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
-					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[0][j].m_level;
+				if (channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) < 0 || m_msers[1][j].m_level > channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0)) {
+					channel_image.m_level_image.at<u8>(pt.m_y, pt.m_x, 0) = m_msers[1][j].m_level;
 					channel_image.m_mser_id_image.at<i32>(pt.m_y, pt.m_x, 0) = j;
 				}
 			}
-- 
2.43.0


From fd2d9b7a708460760b672e7661d72ffd9be45011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:14 +0000
Subject: [PATCH 161/206] fix: mt_mat: a failed allocation was written to
 instead of reported

---
 basicmath/include/mt_mat.h |  2 +
 basicmath/src/mt_mat.cpp   | 80 +++++++++++++++++++++++++-------------
 2 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/basicmath/include/mt_mat.h b/basicmath/include/mt_mat.h
index 705efe2..e209ef6 100644
--- a/basicmath/include/mt_mat.h
+++ b/basicmath/include/mt_mat.h
@@ -638,6 +638,8 @@ class mt_mat {
 
 		void try_deallocate();
 
+		void request_size_steps(i32 dims);
+
 		void fill_auto_step();
 
 		void on_vaule_changed();
diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 94b556f..0effa30 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1,4 +1,5 @@
 #include "stdafx.h"
+#include <new>
 #include "mt_mat.h"
 #include "mt_mat_helper.h"
 #include "mt_auto_derivative.h"
@@ -6,6 +7,16 @@
 
 namespace basicmath {
 
+	static void* s_request_memory(size_t size) {
+		void* memory = malloc(size);
+
+		if (memory == NULL && size != 0) {
+			throw std::bad_alloc();
+		}
+
+		return memory;
+	}
+
 	class private_mat {
 	public:
 
@@ -1113,7 +1124,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
+			m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -1293,28 +1304,31 @@ void mt_mat::create(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel)
 
 	try_deallocate();
 
-	if (dims > 4 && m_dynamic_size_step_size < dims) {
+	int data_size = element_size();
+	for (int i = 0; i < dims; ++i) {
+		data_size *= sizes[i];
+	}
 
-		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
-		}
+	reference_info* reference = new reference_info();
 
-		m_dynamic_size_step_size = dims;
-		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
+	try {
+		m_shared_memory = (u8*)s_request_memory(sizeof(u8) * data_size);
+		request_size_steps(dims);
+	} catch (...) {
+		free(m_shared_memory);
+		m_shared_memory = NULL;
+		delete reference;
+		throw;
 	}
 
+	m_reference = reference;
+	m_data = m_shared_memory;
 	m_dims = dims;
 
-	int data_size = element_size();
 	for (int i = 0; i < m_dims; ++i) {
 		size()[i] = sizes[i];
-		data_size *= sizes[i];
 	}
 
-	m_data = (u8*)malloc(sizeof(u8) * data_size);
-	m_shared_memory = m_data;
-	m_reference = new reference_info();
-
 	fill_auto_step();
 }
 
@@ -2082,15 +2096,7 @@ void mt_mat::operator =(const mt_mat& other) {
 	}
 
 	try_deallocate();
-
-	if (other.m_dims > 4 && m_dynamic_size_step_size < other.m_dims) {
-		if (m_dynamic_size_steps != NULL) {
-			free(m_dynamic_size_steps);
-		}
-
-		m_dynamic_size_step_size = other.m_dims;
-		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
-	}
+	request_size_steps(other.m_dims);
 
 	m_dims = other.m_dims;
 
@@ -2194,6 +2200,24 @@ void mt_mat::try_deallocate() {
 			}
 		}
 	}
+
+	m_reference = NULL;
+	m_shared_memory = NULL;
+	m_data = NULL;
+	m_dims = 0;
+}
+
+void mt_mat::request_size_steps(i32 dims) {
+	if (dims > 4 && m_dynamic_size_step_size < dims) {
+		i32* size_steps = (i32*)s_request_memory(sizeof(i32) * (dims * 2));
+
+		if (m_dynamic_size_steps != NULL) {
+			free(m_dynamic_size_steps);
+		}
+
+		m_dynamic_size_step_size = dims;
+		m_dynamic_size_steps = size_steps;
+	}
 }
 
 mt_mat mt_mat::increase_dim(int added_dim) const {
@@ -2258,7 +2282,7 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2328,7 +2352,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2393,7 +2417,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < combined_dim_start; ++i) {
@@ -2614,7 +2638,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2648,7 +2672,7 @@ mt_mat mt_mat::last_dim_as_channel() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2771,7 +2795,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+		res.m_dynamic_size_steps = (i32*)s_request_memory(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
-- 
2.43.0


From f4b777c5519930abd56bf79b5ec5c451672837f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 162/206] fix: img_stroke_width_transform: an edge pixel
 without a gradient was followed into nowhere

---
 basicimg/src/img_stroke_width_transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index bf115d8..46c23fa 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -57,6 +57,10 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 			start_g_norm = start_g_x * start_g_x + start_g_y * start_g_y;
 			start_g_norm = sqrt(start_g_norm);
 
+			if (0 == start_g_norm) {
+				continue;	// no direction to follow
+			}
+
 			start_g_x /= start_g_norm;
 			start_g_y /= start_g_norm;
 
-- 
2.43.0


From efc92ea87334544de7d0ee37dc7492284a4c0b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:32 +0000
Subject: [PATCH 163/206] fix: img_stroke_width_transform: the angle between
 opposite gradients was not limited, as one of them had no unit length

---
 basicimg/src/img_stroke_width_transform.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 46c23fa..961dfdc 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -31,6 +31,7 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 	i32 surround_y;
 	f32 stop_g_x;
 	f32 stop_g_y;
+	f32 stop_g_norm;
 	f32 gradient_value;
 
 	i32 nextPointIndex;
@@ -126,7 +127,13 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 									stop_g_y = -stop_g_y;
 								}
 
-								gradient_value = start_g_x * -stop_g_x + start_g_y * -stop_g_y;
+								stop_g_norm = sqrt(stop_g_x * stop_g_x + stop_g_y * stop_g_y);
+
+								if (0 == stop_g_norm) {
+									continue;
+								}
+
+								gradient_value = (start_g_x * -stop_g_x + start_g_y * -stop_g_y) / stop_g_norm;
 
 								if (gradient_value >= mt_trigonometric_function::angle_cos(pars.m_pair_intersect_angle)) {
 									if (0 == nextPointIndex) {
-- 
2.43.0


From 25228b5f74bdc7781661a1560b2df455b925e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 164/206] fix: img_canny: the memory was released when it
 should be kept and kept when it should be released

---
 basicimg/src/img_canny.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a1d542c..f2b7e7e 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -16,6 +16,10 @@ void img_canny::clear_memory_cache() {
 		m_gradient_y = mt_mat();
 	}
 
+	if (m_inner_gradient_mag) {
+		m_gradient_mag = mt_mat();
+	}
+
 	vector<u8*> temp;
 	m_stack.swap(temp);
 	basicsys_delete_array(m_buffer);
@@ -62,7 +66,7 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	
 	canny_impl(edge);
 
-	if (m_enable_memory_cache) {
+	if (!m_enable_memory_cache) {
 		clear_memory_cache();
 	}
 }
-- 
2.43.0


From 4077d72a43c0d41fa7948045ef0c6be51203eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 165/206] fix: img_canny: a gradient that the caller gave was
 overwritten by the next detection

---
 basicimg/include/img_canny.h |  9 +++++++++
 basicimg/src/img_canny.cpp   | 12 ++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index 615d9fb..b2ce34a 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -11,6 +11,9 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = sys_true;
 
+			m_inner_gradient_x = sys_true;
+			m_inner_gradient_y = sys_true;
+			m_inner_gradient_mag = sys_true;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -23,6 +26,9 @@ namespace basicimg {
 			m_l2_gradient = sys_true;
 			m_enable_memory_cache = enable_memory_cache;
 
+			m_inner_gradient_x = sys_true;
+			m_inner_gradient_y = sys_true;
+			m_inner_gradient_mag = sys_true;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
@@ -34,6 +40,9 @@ namespace basicimg {
 			m_apeture_size = apeture_size;
 			m_l2_gradient = l2_gradient;
 			m_enable_memory_cache = enable_memory_cache;
+			m_inner_gradient_x = sys_true;
+			m_inner_gradient_y = sys_true;
+			m_inner_gradient_mag = sys_true;
 			m_buffer = NULL;
 			m_buffer_size = 0;
 		}
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index f2b7e7e..7f33a52 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -35,6 +35,10 @@ mt_mat img_canny::edge_detection(const mt_mat& src, const mt_mat& gradient_x /*
 
 void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gradient_x /* = mt_mat() */, const mt_mat& gradient_y /* = mt_mat() */, const mt_mat& gradient_mag /* = mt_mat() */) {
 	if (gradient_x.is_empty()) {
+		if (!m_inner_gradient_x) {
+			m_gradient_x = mt_mat();	// the memory belongs to the caller
+		}
+
 		img_img::sobel(m_gradient_x, src, mt_F32, 1, 0, m_apeture_size);
 		m_inner_gradient_x = sys_true;
 	} else {
@@ -43,6 +47,10 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	}
 
 	if (gradient_y.is_empty()) {
+		if (!m_inner_gradient_y) {
+			m_gradient_y = mt_mat();
+		}
+
 		img_img::sobel(m_gradient_y, src, mt_F32, 0, 1, m_apeture_size);
 		m_inner_gradient_y = sys_true;
 	} else {
@@ -51,6 +59,10 @@ void img_canny::edge_detection(mt_mat& edge, const mt_mat& src, const mt_mat& gr
 	}
 
 	if (gradient_mag.is_empty()) {
+		if (!m_inner_gradient_mag) {
+			m_gradient_mag = mt_mat();
+		}
+
 		img_img::Gradient_Mag_Type gradient_mag_type = img_img::Gradient_Mag_Type_L1;
 
 		if (m_l2_gradient) {
-- 
2.43.0


From 3496b5167c051c1b323345fa04e1db31aed223bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 166/206] fix: img_img: a gradient magnitude written into the
 vertical gradient ignored it

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index a592f60..b144a0b 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -241,9 +241,9 @@ void img_img::generate_gradient_mag(mt_mat& dst, const mt_mat& gradient_x, const
 	//TODO. 
 	//optimize memory
 	
-	dst.copy_from(gradient_x);
 	mt_mat y_helper;
 	y_helper.copy_from(gradient_y);
+	dst.copy_from(gradient_x);
 
 	switch (gradient_mag_type) {
 	case img_img::Gradient_Mag_Type_L1:
-- 
2.43.0


From c6c6dde1a358f21e552627e4fec4303865b0ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 167/206] fix: img_auto_threshold_canny: an image smaller than
 a step of the window was read out of bounds

---
 basicimg/src/img_auto_threshold_canny.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_auto_threshold_canny.cpp b/basicimg/src/img_auto_threshold_canny.cpp
index bc3a1f2..c4979bc 100644
--- a/basicimg/src/img_auto_threshold_canny.cpp
+++ b/basicimg/src/img_auto_threshold_canny.cpp
@@ -69,8 +69,8 @@ void img_auto_threshold_canny::edge_detection(mt_mat& edge, const mt_mat& src, c
 	i32 window_step = m_auto_threshold_window_size / window_step_number;
 	i32 half_window_size = m_auto_threshold_window_size / 2;
 
-	i32 image_window_row_number = rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
-	i32 image_window_col_number = cols / window_step + ((rows % window_step) > half_window_size ? 1 : 0);
+	i32 image_window_row_number = max(1, rows / window_step + ((rows % window_step) > half_window_size ? 1 : 0));
+	i32 image_window_col_number = max(1, cols / window_step + ((cols % window_step) > half_window_size ? 1 : 0));
 
 #define REAL_ROW(row)	\
 	(min(((row) / window_step), rowStepSub1))
-- 
2.43.0


From 9ca07bbb94477f37125d8219bb70fedc39a8fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 168/206] fix: img_stroke_width_transform: a failed allocation
 was written to, or its memory lost

---
 basicimg/src/img_stroke_width_transform.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_stroke_width_transform.cpp b/basicimg/src/img_stroke_width_transform.cpp
index 961dfdc..32a50c1 100644
--- a/basicimg/src/img_stroke_width_transform.cpp
+++ b/basicimg/src/img_stroke_width_transform.cpp
@@ -150,8 +150,14 @@ mt_mat img_stroke_width_transform::swt(mt_mat& edge, mt_mat& gradient_x, mt_mat&
 											backRay.m_start = memory.m_blocks.back() + memory.m_current_block_size;
 											memory.m_current_block_size += (i32)ray_pts.size();
 										} else {
-											backRay.m_start = (mt_point*)malloc(sizeof(mt_point) * Block_Size);
-											memory.m_blocks.push_back(backRay.m_start);
+											memory.m_blocks.push_back(NULL);
+											memory.m_blocks.back() = (mt_point*)malloc(sizeof(mt_point) * Block_Size);
+
+											if (memory.m_blocks.back() == NULL) {
+												throw bad_alloc();
+											}
+
+											backRay.m_start = memory.m_blocks.back();
 											memory.m_current_block_size = (i32)ray_pts.size();
 										}
 
-- 
2.43.0


From 74184b34df33722403abfb41397d784229f30793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 169/206] fix: img_canny: after a failed allocation the next
 detection used a buffer that was not there

---
 basicimg/src/img_canny.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index 7f33a52..a869f6c 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -99,8 +99,9 @@ void img_canny::canny_impl(mt_mat& edge) {
 	if (m_buffer_size != buffer_size) {
 		basicsys_delete_array(m_buffer);
 
+		m_buffer_size = 0;
+		m_buffer = new u8[buffer_size];
 		m_buffer_size = buffer_size;
-		m_buffer = new u8[m_buffer_size];
 	}
 	
     i32* mag_buf[3];
-- 
2.43.0


From 0aeb4782e19044114c10cca945f6d805521ebc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 170/206] fix: img_canny: two copies released the same memory
 and wrote into one magnitude

---
 basicimg/include/img_auto_threshold_canny.h | 21 ++++++++++++++
 basicimg/include/img_canny.h                |  3 ++
 basicimg/src/img_canny.cpp                  | 31 +++++++++++++++++++++
 3 files changed, 55 insertions(+)

diff --git a/basicimg/include/img_auto_threshold_canny.h b/basicimg/include/img_auto_threshold_canny.h
index c58272d..6faead6 100644
--- a/basicimg/include/img_auto_threshold_canny.h
+++ b/basicimg/include/img_auto_threshold_canny.h
@@ -26,6 +26,27 @@ namespace basicimg {
 			m_canny.set_l2_gradient(sys_true);
 		}
 
+		img_auto_threshold_canny(const img_auto_threshold_canny& other) {
+			*this = other;
+		}
+
+		// Each one has its own working memory.
+		img_auto_threshold_canny& operator=(const img_auto_threshold_canny& other) {
+			m_canny = other.m_canny;
+			m_auto_threshold_window_size = other.m_auto_threshold_window_size;
+			m_auto_threshold_max = other.m_auto_threshold_max;
+			m_auto_threshold_min = other.m_auto_threshold_min;
+			m_auto_threshold_density = other.m_auto_threshold_density;
+			m_auto_threshold_to_mean_ratio = other.m_auto_threshold_to_mean_ratio;
+			m_can_not_be_removed_threshold = other.m_can_not_be_removed_threshold;
+			m_noise_edge_number_threshold = other.m_noise_edge_number_threshold;
+			m_density_flag_number_to_window_ratio = other.m_density_flag_number_to_window_ratio;
+			m_density_window_flag_overlap_number_threshold = other.m_density_window_flag_overlap_number_threshold;
+			m_low_to_high_ratio = other.m_low_to_high_ratio;
+
+			return *this;
+		}
+
 		void set_auto_threshold_window_size(i32 size) {
 			m_auto_threshold_window_size = size;
 		}
diff --git a/basicimg/include/img_canny.h b/basicimg/include/img_canny.h
index b2ce34a..2b14555 100644
--- a/basicimg/include/img_canny.h
+++ b/basicimg/include/img_canny.h
@@ -47,6 +47,9 @@ namespace basicimg {
 			m_buffer_size = 0;
 		}
 		
+		img_canny(const img_canny& other);
+		img_canny& operator=(const img_canny& other);
+
 		~img_canny();
 
 
diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index a869f6c..b5d3971 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -3,6 +3,37 @@
 #include "img_canny.h"
 #include "img_img.h"
 
+static mt_mat own_gradient(const mt_mat& gradient, b8 inner) {
+	return inner && !gradient.is_empty() ? gradient.clone() : gradient;
+}
+
+img_canny::img_canny(const img_canny& other) {
+	m_buffer = NULL;
+	m_buffer_size = 0;
+
+	*this = other;
+}
+
+img_canny& img_canny::operator=(const img_canny& other) {
+	if (this != &other) {
+		m_low_threshold = other.m_low_threshold;
+		m_high_threshold = other.m_high_threshold;
+		m_apeture_size = other.m_apeture_size;
+		m_l2_gradient = other.m_l2_gradient;
+		m_enable_memory_cache = other.m_enable_memory_cache;
+
+		// each one has its own working memory
+		m_gradient_x = own_gradient(other.m_gradient_x, other.m_inner_gradient_x);
+		m_inner_gradient_x = other.m_inner_gradient_x;
+		m_gradient_y = own_gradient(other.m_gradient_y, other.m_inner_gradient_y);
+		m_inner_gradient_y = other.m_inner_gradient_y;
+		m_gradient_mag = own_gradient(other.m_gradient_mag, other.m_inner_gradient_mag);
+		m_inner_gradient_mag = other.m_inner_gradient_mag;
+	}
+
+	return *this;
+}
+
 img_canny::~img_canny() {
 	basicsys_delete_array(m_buffer);
 }
-- 
2.43.0


From f4d509d2ba27a3fae1baa42ce79688839ce36b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:42 +0000
Subject: [PATCH 171/206] fix: mt_mat: convert took 64-bit integers by way of
 double and changed them

---
 basicmath/src/mt_mat.cpp | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0effa30..f4c81ff 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2064,23 +2064,7 @@ mt_mat mt_mat::clone() const {
 
 void mt_mat::convert(mt_mat& res, mt_Depth depth) const {
 	res.create(dim(), size(), mt_Depth_Channel(depth, channel()));
-
-	mt_array_element_const_iterator cur_iter(*this);
-	mt_array_element_iterator other_iter(res);
-
-	vector<double> values;
-
-	for (;;) {
-		const u8* ptr_cur = cur_iter.data();
-		u8* ptr_other = other_iter.data();
-
-		if (ptr_cur == NULL) {
-			break;
-		}
-
-		private_mat::get_data(values, ptr_cur, depth_channel());
-		private_mat::set_data(ptr_other, res.depth_channel(), &values[0], (i32)values.size());
-	}
+	res.set(*this);
 }
 
 mt_mat mt_mat::convert(mt_Depth depth) const {
-- 
2.43.0


From dd0f95f3aa5defc164b66ded0355b4fbe664af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 172/206] fix: mt_mat: plane took the columns of that number,
 as the planes are the first dimension

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index f4c81ff..6cc014d 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2735,7 +2735,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From ac53a9abd49bdb2cf698ece22780d82ec4d65850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 173/206] fix: mt_mat: every matrix was said to be symmetrical

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 6cc014d..47c4b49 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2981,5 +2981,5 @@ b8 mt_mat::is_step_negative() const {
 }
 
 b8 mt_mat::is_symmetrical() const {
-	return sys_true;
+	return m_dims == 2 && size()[0] == size()[1] && *this == t();
 }
\ No newline at end of file
-- 
2.43.0


From 893ff8e4b94bf01b916ded6be9d05c1a025f55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:25 +0000
Subject: [PATCH 174/206] fix: mt_helper: an infinite number was less than
 itself

---
 basicmath/src/mt_helper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..3279c89 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -36,6 +36,10 @@ double mt_helper::get_double_eps() {
 }
 
 int mt_helper::compare_float(float a, float b) {
+	if (a == b) {
+		return 0;
+	}
+
 	float value = a - b;
 
 	if (abs(value) < mt_float_eps) {
@@ -56,6 +60,10 @@ int mt_helper::compare_float(float a, float b) {
 }
 
 int mt_helper::compare_double(double a, double b) {
+	if (a == b) {
+		return 0;
+	}
+
 	double value = a - b;
 
 	if (abs(value) < mt_double_eps) {
-- 
2.43.0


From 8f6f9c57b189fc40c65bb126602400f979624bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 175/206] fix: mt_helper: the split by means rounded one of
 them, overflowed, and added to what its result held before

---
 basicmath/src/mt_helper.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index 3279c89..2b09612 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -289,32 +289,36 @@ string mt_helper::battle_ship(const string& ships, const string& hits) {
 }
 
 void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b , const vector<i32>& input_data) {
-	if (input_data.empty()) {
+	vector<i32> data = input_data;
+
+	a.clear();
+	b.clear();
+
+	if (data.empty()) {
 		return;
 	}
 
-	vector<i32> data = input_data;
 	sort(data.begin(), data.end());
 
-	i32 left_sum = 0;
-	f32 max_sub = -FLT_MAX;
+	i64 left_sum = 0;
+	f64 max_sub = -DBL_MAX;
 	i32 split_index = -1;
 
-	a.resize(data.size());
+	vector<f64> right_means(data.size());
 
-	i32 right_sum = 0;
+	i64 right_sum = 0;
 
 	for (i32 i = (i32)data.size() - 1; i >= 0; --i) {
 		right_sum += data[i];
 
-		a[i] = right_sum / ((i32)data.size()  - i);
+		right_means[i] = right_sum / (f64)((i32)data.size()  - i);
 	}
 
 	for (i32 i = 0; i < (i32)data.size() - 1; ++i) {
 		left_sum += data[i];
 
-		i32 right_mean = a[i + 1];
-		f32 left_mean = left_sum / (f32)(i + 1);
+		f64 right_mean = right_means[i + 1];
+		f64 left_mean = left_sum / (f64)(i + 1);
 
 		if (right_mean - left_mean > max_sub) {
 			max_sub = right_mean - left_mean;
@@ -329,7 +333,6 @@ void mt_helper::split_array_to_max_mean_sub_arrays(vector<i32>& a, vector<i32>&b
 		b.push_back(data[i]);
 	}
 
-	a.clear();
 	for (i32 i = split_index + 1; i < (i32)data.size(); ++i) {
 		a.push_back(data[i]);
 	}
-- 
2.43.0


From 0526589a290020c632d4c6f0ee29bc6bafa9017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:49 +0000
Subject: [PATCH 176/206] fix: extractors without support for masks say so and
 take the whole image instead of memory that was never written

---
 basicimg/src/img_fast_mser_v1.cpp | 5 +++--
 basicimg/src/img_fast_mser_v2.cpp | 5 +++--
 basicimg/src/img_ms_mser.cpp      | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 98d1e79..e71015c 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -88,6 +88,7 @@ void img_fast_mser_v1::clear_memory_cache() {
 }
 
 void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	u32 h_size = img.size()[0] * img.size()[1] + 257 * m_parallel_thread_number;
 
 	if (h_size != m_heap_size) {
@@ -1376,7 +1377,7 @@ void img_fast_mser_v1::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 			top_combined_mask |= bottom_mask;
 		}
 
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			if (gray_mask == 0) {
 				//set middle row
 				//first real image row
@@ -1547,7 +1548,7 @@ void img_fast_mser_v1::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 		
 		i16 boundary_flag = 0;
 		//set the first row to be -1
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			//set middle row
 			for (row = 0; row < pinfo.m_height; ++row) {
 				for (col = 0; col < pinfo.m_width; ++col) {
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f4a0f19..37b1d9d 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -51,6 +51,7 @@ void img_fast_mser_v2::clear_memory_cache() {
 }
 
 void img_fast_mser_v2::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	u32 horizontal_partition_number = 2;
 	u32 vertical_partition_number = 2;
 	
@@ -430,7 +431,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 
 		extended_image_data += masked_image_width + 1;
 
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			//set middle row
 			for (row = 0; row < pinfo.m_height; ++row) {
 				*points++ = m_boundary_pixel;
@@ -455,7 +456,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 		points += masked_image_width + 1;
 		u8 gray = 0;
 		//set the first row to be -1
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			//set middle row
 			for (row = 0; row < pinfo.m_height; ++row) {
 				for (col = 0; col < pinfo.m_width; ++col) {
diff --git a/basicimg/src/img_ms_mser.cpp b/basicimg/src/img_ms_mser.cpp
index 76173ed..944103c 100644
--- a/basicimg/src/img_ms_mser.cpp
+++ b/basicimg/src/img_ms_mser.cpp
@@ -51,6 +51,7 @@ void img_ms_mser::clear_memory_cache() {
 }
 
 void img_ms_mser::allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	m_image_height = img.size()[0];
 	m_image_width = img.size()[1];
 
@@ -168,7 +169,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 
 		extended_image_data += extended_image_width + 1;
 
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			//set middle row
 			for (row = 0; row < height; ++row) {
 				*points++ = m_boundary_pixel;
@@ -192,7 +193,7 @@ void img_ms_mser::pre_process_image(const mt_mat& img, const img_mask_info<u8>&
 	} else {
 		points += extended_image_width + 1;
 		//set the first row to be -1
-		if (mask.m_mask_type == img_Mask_Type_Null) {
+		{
 			//set middle row
 			for (row = 0; row < height; ++row) {
 				for (col = 0; col < width; ++col) {
-- 
2.43.0


From 98145117aa2529161eba7c179abe1e169f0f6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:49 +0000
Subject: [PATCH 177/206] fix: the OpenCV 3, vlfeat and idiap extractors report
 a mask they leave out of account

---
 basicimg/src/img_idiap_mser.cpp   | 1 +
 basicimg/src/img_opencv3_mser.cpp | 1 +
 basicimg/src/img_vlfeat_mser.cpp  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index 5fd7445..3d18036 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -236,6 +236,7 @@ void img_idiap_mser::mser_region::detect(i32 delta, i32 minArea, i32 maxArea, f3
 }
 
 void img_idiap_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	if (!src.is_continuous()) {
 		m_src = mt_mat();	//it may share the image of the previous call
 		m_src.copy_from(src);
diff --git a/basicimg/src/img_opencv3_mser.cpp b/basicimg/src/img_opencv3_mser.cpp
index e9e2064..ab45a60 100644
--- a/basicimg/src/img_opencv3_mser.cpp
+++ b/basicimg/src/img_opencv3_mser.cpp
@@ -215,6 +215,7 @@ void img_opencv3_mser::clear_memory_cache() {
 }
 
 void img_opencv3_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	mt_mat temp = src;
 
 	if (!temp.is_continuous()) {
diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 5372922..b21e2d4 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -2342,6 +2342,7 @@ void mser_recogniztion(MserFilt* f) {
 }
 
 void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
+	basiclog_assert_message2(mask.m_mask_type == img_Mask_Type_Null, "Not support mask!");
 	if (!src.is_continuous()) {
 		m_src = mt_mat();	//it may share the image of the previous call
 		m_src.copy_from(src);
-- 
2.43.0


From 8b47fd3e604a7590f15a67a14560740fa919dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 178/206] fix: linear extractor: a background value was left
 out of account for dark regions

---
 basicimg/src/img_linked_linear_mser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index a6abff5..32d204b 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -391,8 +391,8 @@ void img_linked_linear_mser::pre_process_image(const mt_mat& src, u8 gray_mask,
 						srcValue = *srcptr;
 					}
 
-					level_size[*srcptr]++;
-					*imgptr = *srcptr;
+					level_size[srcValue]++;
+					*imgptr = srcValue;
 
 					imgptr++;
 					srcptr++;
-- 
2.43.0


From 847ce17b4f531f8a3610a82e00e5d54746a77311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 179/206] fix: linear extractor: a mask rectangle was left out
 of account

---
 basicimg/src/img_linked_linear_mser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/basicimg/src/img_linked_linear_mser.cpp b/basicimg/src/img_linked_linear_mser.cpp
index 32d204b..e0e3e38 100644
--- a/basicimg/src/img_linked_linear_mser.cpp
+++ b/basicimg/src/img_linked_linear_mser.cpp
@@ -118,6 +118,15 @@ void img_linked_linear_mser::calculate_variance_with_cache(mser_region& region)
 void img_linked_linear_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>& mask) {
 	i32 area = 0;
 	m_mask_activate_rect.set_rect(mt_point(0, 0), mt_size(src.size()[1], src.size()[0]));
+
+	if (img_Mask_Type_Rect == mask.m_mask_type) {
+		mt_rect image_rect = m_mask_activate_rect;
+
+		if (!image_rect.is_intersect(m_mask_activate_rect, mask.m_mask_rect)) {
+			m_mask_activate_rect = mt_rect();
+		}
+	}
+
 	area = m_mask_activate_rect.getArea();
 	/*
 	if (m_enable_memory_cache) {
@@ -505,6 +514,8 @@ void img_linked_linear_mser::extract_pass(i16* ioptr) {
 		i32 imsk = (i32)(imgptr-ioptr);		
 		ptsptr->m_point.m_y = imsk / mask_image_width;
 		ptsptr->m_point.m_x = imsk - (ptsptr->m_point.m_y * mask_image_width);
+		ptsptr->m_point.m_y += m_mask_activate_rect.m_top;
+		ptsptr->m_point.m_x += m_mask_activate_rect.m_left;
 
 		accumulate_comp( comptr, ptsptr );
 		ptsptr++;
@@ -1139,6 +1150,11 @@ img_linked_linear_mser::~img_linked_linear_mser() {
 }
 
 void img_linked_linear_mser::build_tree(const mt_mat& src, const img_mask_info<u8>& mask, u8 gray_mask) {
+	if (m_mask_activate_rect.m_width <= 0 || m_mask_activate_rect.m_height <= 0) {
+		m_er_number = 0;	//the rectangle of the mask lies outside the image
+		return;
+	}
+
 	i16* ioptr = m_masked_image + m_mask_activate_rect.m_width + 2 + 1;
 	pre_process_image(src, gray_mask, mask);
 	extract_pass(ioptr);
-- 
2.43.0


From cc94198825460240472c3c0698e94ab5987e6e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 180/206] fix: original extractor: a mask rectangle that leaves
 the image read outside of it

---
 basicimg/src/img_origin_mser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 7769045..4708c9a 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -454,7 +454,11 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 		if (img_Mask_Type_Null == mask.m_mask_type) {
 			activate_rect.set_rect(mt_point(0, 0), mt_size(image.size()[1], image.size()[0]));
 		} else {
-			activate_rect = mask.m_mask_rect;
+			mt_rect image_rect(0, 0, image.size()[1], image.size()[0]);
+
+			if (!image_rect.is_intersect(activate_rect, mask.m_mask_rect)) {
+				activate_rect = mt_rect();
+			}
 		}
 
 		area = activate_rect.getArea();
@@ -466,7 +470,7 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 
 		i16* tempImageData = mTempImage.ptr<i16>(1, 1);
 
-		const uchar* imageData = image.ptr<uchar>(activate_rect.m_top, activate_rect.m_left);
+		const uchar* imageData = image.data() + activate_rect.m_top * image.step()[0] + activate_rect.m_left;
 
 		for (i32 row = 1; row <= activate_rect.m_height; ++row) {
 			for (i32 col = 1; col <= activate_rect.m_width; ++col) {
-- 
2.43.0


From fd7dc1d6593b4fbbce61987db55757e725149111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 181/206] fix: original extractor: a background value was
 looked for in the padding of the rows

---
 basicimg/src/img_origin_mser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 4708c9a..27b16bf 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -561,6 +561,8 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 						colMin = min(colMin, col);
 					}
 				}
+
+				imageData += image.step()[0] - image.size()[1];
 			}
 
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
-- 
2.43.0


From 0a4a069065fc88b9deda43abc210433377b744e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:42 +0000
Subject: [PATCH 182/206] fix: original extractor: a mask that admits no pixel
 made an image of negative size

---
 basicimg/src/img_origin_mser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/basicimg/src/img_origin_mser.cpp b/basicimg/src/img_origin_mser.cpp
index 27b16bf..46fc73d 100644
--- a/basicimg/src/img_origin_mser.cpp
+++ b/basicimg/src/img_origin_mser.cpp
@@ -510,6 +510,11 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				maskData += mask_append_offset;
 			}
 
+			if (rowMin > rowMax) {
+				rowMin = colMin = 0;	//no pixel is left
+				rowMax = colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
@@ -565,6 +570,11 @@ void img_original_mser::allocate_memory(const mt_mat& image, const img_mask_info
 				imageData += image.step()[0] - image.size()[1];
 			}
 
+			if (rowMin > rowMax) {
+				rowMin = colMin = 0;	//no pixel is left
+				rowMax = colMax = -1;
+			}
+
 			mt_size targetImageSize(colMax - colMin + 1, rowMax - rowMin + 1);
 			activate_rect.set_rect(mt_point(colMin, rowMin), targetImageSize);
 
-- 
2.43.0


From 8eaefd75c6f2322994dcc99b1b310b13641405f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:32 +0000
Subject: [PATCH 183/206] fix: unpooling by mean or first value looked up the
 element size of the empty mask outside its table and divided by it

---
 basicmath/src/mt_pooling.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index d0dc0c1..fad7b2b 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -1063,7 +1063,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_row = 0;
@@ -1143,7 +1143,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_2d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = pooling_res_mat.channel();
 				i32 mat_start_row = 0;
@@ -1230,7 +1230,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_1(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 
 				i32 mat_start_plane = 0;
@@ -1347,7 +1347,7 @@ namespace basicmath {
 
 			template<class T>
 			static void unpooling_3d_channel_n(mt_mat& src, const mt_mat& mask_mat, const mt_mat& pooling_res_mat, mt_Pooling_Type pooling_type, i32 size, const i32* kernel_sizes, const i32* strides) {
-				i32 mask_last_step = mask_mat.last_dim_element_step();
+				i32 mask_last_step = mask_mat.is_empty() ? 0 : mask_mat.last_dim_element_step();
 				i32 pooling_res_last_step = pooling_res_mat.last_dim_element_step();
 				i32 channels = src.channel();
 				i32 mat_start_plane = 0;
-- 
2.43.0


From a3a4785f35e710149e60c4dd2e3eb869276dbf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:32 +0000
Subject: [PATCH 184/206] fix: V1 and V2: the block size of the regions was 1
 shifted by 2000

---
 basicimg/src/img_fast_mser_v1.cpp | 2 +-
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index e71015c..cff7812 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -1046,7 +1046,7 @@ void img_fast_mser_v1::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 	i32 erCount = 0;
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	i16*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 37b1d9d..ac1c098 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -247,7 +247,7 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 	
 #define get_gray(ptr)	((m_mask_mask == 0 || (*ptr & m_mask_mask) == 0) ? (*(pinfo.m_extended_image + (ptr - pinfo.m_points)) ^ gray_mask) : 256)
 
-	pinfo.m_mser_regions.init(2000, sys_false);
+	pinfo.m_mser_regions.init(16, sys_false);
 
 	u32*** heap_cur = pinfo.m_heap_start;
 	connected_comp* comptr = pinfo.m_comp; 
-- 
2.43.0


From bf2d7740e1469dfe5d1d3e546a29baf6e3998089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:34 +0000
Subject: [PATCH 185/206] fix: ID-MSER: the list behind the last gray level was
 looked at

---
 basicimg/src/img_idiap_mser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_idiap_mser.cpp b/basicimg/src/img_idiap_mser.cpp
index 3d18036..62c320b 100644
--- a/basicimg/src/img_idiap_mser.cpp
+++ b/basicimg/src/img_idiap_mser.cpp
@@ -434,7 +434,7 @@ step_3:
 
 
 
-		while (boundaryPixels[priority].empty() && (priority < 256))
+		while ((priority < 256) && boundaryPixels[priority].empty())
 
 			++priority;
 
-- 
2.43.0


From 5a23c9f8ac34bf02e7a468b23a4a352f8d5966a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 186/206] fix: a convolution into its own kernel lost the
 kernel before it was read

---
 basicmath/src/mt_convolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index ce3e9eb..63802da 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -144,7 +144,7 @@ namespace basicmath {
 }
 
 void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type /* = mt_Conv_Kernel_Align_Type_Row */, const int* conv_strides /* = NULL */) const {
-	if (&res == this) {
+	if (&res == this || &res == &kernel) {
 		mt_mat temp;
 		conv(temp, kernel, boundary_type, align_type, conv_strides);
 
-- 
2.43.0


From f3b0f0773b996a8240184348d8e66860d905cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:47 +0000
Subject: [PATCH 187/206] fix: a product of matrices flipped in one dimension
 only called itself without end

---
 basicmath/src/ml_multiplication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index b9ad7f0..11051dc 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -48,7 +48,7 @@ namespace basicmath {
 					}
 			} else {
 				mt_mat temp_cur = a;
-				if (a.is_step_negative()) {
+				if (!a.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of current mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_cur = a.clone();
 				} else if (!a.is_min_abs_step_equal_element_size()) {
@@ -57,7 +57,7 @@ namespace basicmath {
 				}
 
 				mt_mat temp_value = b;
-				if (b.is_step_negative()) {
+				if (!b.is_step_positive()) {
 					basiclog_warning(basiclog_performance_warning, "the step of other mat has negative values, this will reduce the performance, you should better input a mat with all positive steps!");
 					temp_value = b.clone();
 				} else if (!b.is_min_abs_step_equal_element_size()) {
-- 
2.43.0


From 6d9253e47da512a1dd0bf01b738af568eebaadf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 188/206] fix: products with a matrix of one row that was a
 column gave an impossible row length to the library

---
 basicmath/src/ml_multiplication.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index 11051dc..c584a58 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -41,6 +41,10 @@ namespace basicmath {
 						other_ld = (b.step()[1] / b.element_size());
 					}
 
+					//the step along a dimension of one element may be less than a whole row
+					cur_ld = mt_helper::max(cur_ld, cur_transpose ? row_a : col_a);
+					other_ld = mt_helper::max(other_ld, other_transpose ? row_b : col_b);
+
 					if (mt_F32 == res.depth()) {
 						basicmath_sgemm(cur_transpose, other_transpose, row_a, col_b, col_a, (const f32*)ptr_cur_data, cur_ld, (const f32*)ptr_other_data, other_ld, (f32*)ptr_res_data, res_ld);
 					} else if (mt_F64 == res.depth()) {
-- 
2.43.0


From 1416f2b6d06e39adcce2d00cbbd1d70ddde2809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:52 +0000
Subject: [PATCH 189/206] fix: the derivative of a convolution took every
 kernel as ordered by the channels of its source

---
 basicmath/include/mt_auto_derivative.h      | 2 +-
 basicmath/include/mt_auto_derivative_tree.h | 4 +++-
 basicmath/src/mt_auto_derivative.cpp        | 6 +++---
 basicmath/src/mt_auto_derivative_tree.cpp   | 4 ++--
 basicmath/src/mt_convolution.cpp            | 2 +-
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index 96aacb4..ace5c15 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -77,7 +77,7 @@ namespace basicmath {
 		void subtract(const mt_mat& res, const vector<double>& a, const mt_mat& b);
 		
 		void mul(const mt_mat& res, const mt_mat& a, const mt_mat& b);
-		void cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides);
+		void cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, mt_Conv_Kernel_Align_Type align_type, const i32* strides);
 
 		void flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags);
 		void reshape(const mt_mat& res, const mt_mat& src);
diff --git a/basicmath/include/mt_auto_derivative_tree.h b/basicmath/include/mt_auto_derivative_tree.h
index bb31d7c..3eecefd 100644
--- a/basicmath/include/mt_auto_derivative_tree.h
+++ b/basicmath/include/mt_auto_derivative_tree.h
@@ -663,10 +663,11 @@ namespace basicmath {
 	class mt_ad_conv_tree_node : public mt_ad_mat_tree_node {
 	public:
 
-		mt_ad_conv_tree_node(const mt_mat& res, mt_ad_tree_node* src, mt_ad_tree_node* kernel, const i32* strides, i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
+		mt_ad_conv_tree_node(const mt_mat& res, mt_ad_tree_node* src, mt_ad_tree_node* kernel, mt_Conv_Kernel_Align_Type align_type, const i32* strides, i32 max_cache_size = mt_Auto_Derivative_Default_Max_Cache_Size) {
 			m_mat = res;
 			m_childs.push_back(src);
 			m_childs.push_back(kernel);
+			m_align_type = align_type;
 
 			if (strides != NULL) {
 				mt_helper::vec_from_array(m_strides, res.dim(), strides);
@@ -687,6 +688,7 @@ namespace basicmath {
 
 		mt_mat derivate_child_on_operation(mt_ad_mat_tree_node* child_node, const mt_mat& derivative_res);
 
+		mt_Conv_Kernel_Align_Type m_align_type;
 		vector<i32> m_strides;
 	};
 
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index 8e0b621..d259e80 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -229,12 +229,12 @@ void mt_auto_derivative::mul(const mt_mat& res, const mt_mat& a, const mt_mat& b
 	m_nodes.push_back(new mt_ad_mul_tree_node(res, get_node(a), get_node(b), m_max_cache_size));
 }
 
-void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, const i32* strides) {
-	if (boundary_type != mt_Conv_Boundary_Type_Valid) {
+void mt_auto_derivative::cnov(const mt_mat& res, const mt_mat& src, const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type, mt_Conv_Kernel_Align_Type align_type, const i32* strides) {
+	if (boundary_type != mt_Conv_Boundary_Type_Valid || (align_type != mt_Conv_Kernel_Align_Type_Row && align_type != mt_Conv_Kernel_Align_Type_Col)) {
 		basiclog_unsupport2();
 	}
 	
-	m_nodes.push_back(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), strides, m_max_cache_size));
+	m_nodes.push_back(new mt_ad_conv_tree_node(res, get_node(src), get_node(kernel), align_type, strides, m_max_cache_size));
 }
 
 void mt_auto_derivative::flip(const mt_mat& res, const mt_mat& src, i32 size, const b8* flip_flags) {
diff --git a/basicmath/src/mt_auto_derivative_tree.cpp b/basicmath/src/mt_auto_derivative_tree.cpp
index f32bf6f..5e75829 100644
--- a/basicmath/src/mt_auto_derivative_tree.cpp
+++ b/basicmath/src/mt_auto_derivative_tree.cpp
@@ -184,11 +184,11 @@ mt_mat mt_ad_conv_tree_node::derivate_child_on_operation(mt_ad_mat_tree_node* ch
 	}
 
 	if (m_child_index == 0) {
-		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, mt_Conv_Kernel_Align_Type_Col);
+		return derivate_mat.conv(m_childs[1]->to_mat_tree_node()->m_mat.flip_all_dim(), mt_Conv_Boundary_Type_Full, m_align_type == mt_Conv_Kernel_Align_Type_Row ? mt_Conv_Kernel_Align_Type_Col : mt_Conv_Kernel_Align_Type_Row);
 	}
 
 	if (m_child_index == 1) {
-		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, mt_Conv_Kernel_Align_Type_Cross_Row);
+		return m_childs[0]->to_mat_tree_node()->m_mat.flip_all_dim().conv(derivate_mat, mt_Conv_Boundary_Type_Valid, m_align_type == mt_Conv_Kernel_Align_Type_Row ? mt_Conv_Kernel_Align_Type_Cross_Row : mt_Conv_Kernel_Align_Type_Cross_Col);
 	}
 
 	basiclog_assert2(sys_false);
diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 63802da..495b240 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -286,7 +286,7 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 		res.m_auto_derivative = m_auto_derivative;
 		kernel.m_auto_derivative = m_auto_derivative;
 
-		m_auto_derivative->cnov(res, *this, kernel, boundary_type, temp_strides);
+		m_auto_derivative->cnov(res, *this, kernel, boundary_type, align_type, temp_strides);
 	}
 }
 
-- 
2.43.0


From dd25347a41ed210c30ef99c16709d7f6acfc7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:27 +0000
Subject: [PATCH 190/206] fix: convolution of more than 4 dimensions recorded
 its strides from released memory

---
 basicmath/src/mt_convolution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_convolution.cpp b/basicmath/src/mt_convolution.cpp
index 495b240..c85fd9d 100644
--- a/basicmath/src/mt_convolution.cpp
+++ b/basicmath/src/mt_convolution.cpp
@@ -279,7 +279,6 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 	basicmath_mat_release(full_sizes);
 	basicmath_mat_release(sizes);
 	basicmath_mat_release(starts);
-	basicmath_mat_release(temp_strides);
 	basicmath_mat_release(res_steps);
 
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
@@ -288,6 +287,8 @@ void mt_mat::conv(mt_mat& res, const mt_mat& kernel, mt_Conv_Boundary_Type bound
 
 		m_auto_derivative->cnov(res, *this, kernel, boundary_type, align_type, temp_strides);
 	}
+
+	basicmath_mat_release(temp_strides);
 }
 
 mt_mat mt_mat::conv(const mt_mat& kernel, mt_Conv_Boundary_Type boundary_type /* = mt_Conv_Boundary_Type_Valid */, mt_Conv_Kernel_Align_Type align_type, const int* conv_strides /* = NULL */) const {	
-- 
2.43.0


From d6e8507e2f270f6972f44d7c5771ab6ef201572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:51 +0000
Subject: [PATCH 191/206] fix: a product of matrices of several channels
 recorded its inner steps as computations of the caller

---
 basicmath/src/ml_multiplication.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/ml_multiplication.cpp b/basicmath/src/ml_multiplication.cpp
index c584a58..85815c9 100644
--- a/basicmath/src/ml_multiplication.cpp
+++ b/basicmath/src/ml_multiplication.cpp
@@ -112,16 +112,22 @@ mt_mat mt_mat::mul(const mt_mat& value) const {
 
 	mt_mat res(size()[0], value.size()[1], depth_channel());
 
+	//what happens inside the multiplication is not recorded
+	mt_mat temp_src = *this;
+	mt_mat temp_value = value;
+	temp_src.attach(NULL);
+	temp_value.attach(NULL);
+
 	if (channel() == 1) {
-		private_multiplication::mul(res, *this, value);
+		private_multiplication::mul(res, temp_src, temp_value);
 	} else {
 		mt_mat res_channel(size()[0], value.size()[1], mt_Depth_Channel(depth(), 1));
 		mt_mat src_channel(size()[0], size()[1], mt_Depth_Channel(depth(), 1));
 		mt_mat value_channel(value.size()[0], value.size()[1], mt_Depth_Channel(depth(), 1));
 
 		for (i32 c = 0; c < channel(); ++c) {
-			src_channel.set(channel_at(c));
-			value_channel.set(value.channel_at(c));
+			src_channel.set(temp_src.channel_at(c));
+			value_channel.set(temp_value.channel_at(c));
 			private_multiplication::mul(res_channel, src_channel, value_channel);
 
 			res.channel_at(c).set(res_channel);
-- 
2.43.0


From 2b5914f2d40d36edb2f3b05d5c4bff36d427dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 192/206] fix: gaussian_blur gave the vertical kernel the width
 of the horizontal one

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index b144a0b..615b05c 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -350,7 +350,7 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	if (kernel_height == kernel_width && mt_helper::compare_double(sigma_x, sigma_y) == 0) {
 		kernel_y = kernel_x;
 	} else {
-		generate_gaussian_kernel(kernel_y, kernel_width, sigma_y);
+		generate_gaussian_kernel(kernel_y, kernel_height, sigma_y);
 	}
 
 	mt_mat temp;
-- 
2.43.0


From d195694b5f956d620b68fa2ab8464f2468dcc804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:26 +0000
Subject: [PATCH 193/206] fix: gaussian_blur with a standard deviation of 0
 divided 0 by 0

---
 basicimg/src/img_img.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index 615b05c..e2e9dc3 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -379,7 +379,7 @@ void img_img::generate_gaussian_kernel(mt_mat& kernel, i32 size, f64 sigma) {
 	f64 sum = 0;
 
 	for (i32 i = 0; i < size; ++i) {
-		f64 temp = (i - half) / sigma;
+		f64 temp = i == half ? 0 : (i - half) / sigma;
 		*data = exp(-0.5 * temp * temp);
 		sum += *data;
 		data += kernel.last_dim_element_step();
-- 
2.43.0


From 15b4a46269b190ec494700e059c9ab3a40ca8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:59 +0000
Subject: [PATCH 194/206] fix: gaussian_blur of an image of several channels
 asked for a result without channels

---
 basicimg/src/img_img.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_img.cpp b/basicimg/src/img_img.cpp
index e2e9dc3..3bee525 100644
--- a/basicimg/src/img_img.cpp
+++ b/basicimg/src/img_img.cpp
@@ -356,8 +356,8 @@ void img_img::gaussian_blur(mt_mat& res, const mt_mat& src, const mt_size& kerne
 	mt_mat temp;
 	mt_mat temp_src = src.convert(mt_F64);
 
-	temp_src.conv(temp, kernel_x, mt_Conv_Boundary_Type_Same);
-	temp.conv(temp, kernel_y.t(), mt_Conv_Boundary_Type_Same);
+	temp_src.conv(temp, kernel_x, mt_Conv_Boundary_Type_Same, mt_Conv_Kernel_Align_Type_Cross_Row);
+	temp.conv(temp, kernel_y.t(), mt_Conv_Boundary_Type_Same, mt_Conv_Kernel_Align_Type_Cross_Row);
 
 	//basiclog_info2(temp);
 
-- 
2.43.0


From 1f4e0295474003523192b22e07429a4b31a8adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 195/206] fix: the text of a matrix of 1 dimension ran its
 first value into the number of channels

---
 basicmath/src/mt_mat_serialize.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index ee6f251..27fd90b 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -3,6 +3,8 @@
 namespace basicmath {
 	template<class T>
 	static void write_1d_mat(sys_strcombine& str, const mt_mat& mat) {
+		str << "\n";
+
 		const u8* ptr_mat_dim0 = mat.data();
 		for (int row = 0; row < mat.size()[0]; ++row) {
 			const T* ptr_channel = (const T*)ptr_mat_dim0;
-- 
2.43.0


From 74417f25e710f323ce9c621dd50fd7dbbbb1727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 196/206] fix: the text of a matrix of signed bytes gave them
 as characters

---
 basicmath/src/mt_mat_serialize.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat_serialize.cpp b/basicmath/src/mt_mat_serialize.cpp
index 27fd90b..a8c1ec8 100644
--- a/basicmath/src/mt_mat_serialize.cpp
+++ b/basicmath/src/mt_mat_serialize.cpp
@@ -1,6 +1,15 @@
 #include "stdafx.h"
 
 namespace basicmath {
+	template<class T>
+	static void write_value(sys_strcombine& str, T value) {
+		str << value;
+	}
+
+	static void write_value(sys_strcombine& str, i8 value) {
+		str << (i32)value;
+	}
+
 	template<class T>
 	static void write_1d_mat(sys_strcombine& str, const mt_mat& mat) {
 		str << "\n";
@@ -9,7 +18,7 @@ namespace basicmath {
 		for (int row = 0; row < mat.size()[0]; ++row) {
 			const T* ptr_channel = (const T*)ptr_mat_dim0;
 			for (int c = 0; c < mat.channel(); ++c) {
-				str << ptr_channel[c];
+				write_value(str, ptr_channel[c]);
 
 				if (c != mat.channel() - 1) {
 					str<<" ";
@@ -35,7 +44,7 @@ namespace basicmath {
 			for (int col = 0; col < mat.size()[1]; ++col) {
 				const T* ptr_channel = (const T*)ptr_mat_dim1;
 				for (int c = 0; c < mat.channel(); ++c) {
-					str << ptr_channel[c];
+					write_value(str, ptr_channel[c]);
 
 					if (c != mat.channel() - 1) {
 						str<<" ";
@@ -68,7 +77,7 @@ namespace basicmath {
 				for (int col = 0; col < mat.size()[2]; ++col) {
 					const T* ptr_channel = (const T*)ptr_mat_dim2;
 					for (int c = 0; c < mat.channel(); ++c) {
-						str << ptr_channel[c];
+						write_value(str, ptr_channel[c]);
 
 						if (c != mat.channel() - 1) {
 							str<<" ";
-- 
2.43.0


From 8b19886b6897f7fef85e8194c56f1ab68d53f852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 197/206] fix: a JSON iterator kept by i++ or i-- did not equal
 the place it was kept from

---
 basicsys/src/sys_json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_json.cpp b/basicsys/src/sys_json.cpp
index e86aa8d..bba0876 100644
--- a/basicsys/src/sys_json.cpp
+++ b/basicsys/src/sys_json.cpp
@@ -979,7 +979,7 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator ++ () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator ++ (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
 		other.m_map_iterator = m_map_iterator++;
@@ -1005,7 +1005,7 @@ sys_json_reader_iteartor& sys_json_reader_iteartor::operator -- () {
 }
 
 sys_json_reader_iteartor sys_json_reader_iteartor::operator -- (int) {
-	sys_json_reader_iteartor other(m_node_type);
+	sys_json_reader_iteartor other(*this);
 
 	if (m_node_type == sys_Node_Type_Map) {
 		other.m_map_iterator = m_map_iterator--;
-- 
2.43.0


From d35ee8151490066b5e67b760b906f7afc4a76120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 198/206] fix: VF-MSER with 4 neighbours joined diagonal pixels
 of an image two pixels wide

---
 basicimg/src/img_vlfeat_mser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index b21e2d4..0e560d5 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -1568,8 +1568,11 @@ mser_process(MserFilt *f, unsigned char const *im) {
 			b8 valid_neibour = sys_true;
 
 			if (f->connect_type == img_Connected_Type_4_Neibour) {
-				i32 n_offset = abs((i32)n_idx - (i32)idx);
-				if (n_offset != 1 && n_offset % dims[0] != 0) {
+				i32 n_steps = 0;
+				for (k = 0; k < ndims; ++k) {
+					n_steps += dsubs[k] != 0;
+				}
+				if (n_steps > 1) {
 					valid_neibour = sys_false;
 				}
 			}
-- 
2.43.0


From ac25768cdf36264b4bf533f39f6a60190052a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:22 +0000
Subject: [PATCH 199/206] fix: VF-MSER dropped regions of exactly the least
 size allowed because the limit was rounded through a fraction

---
 basicimg/src/img_vlfeat_mser.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/basicimg/src/img_vlfeat_mser.cpp b/basicimg/src/img_vlfeat_mser.cpp
index 0e560d5..752a333 100644
--- a/basicimg/src/img_vlfeat_mser.cpp
+++ b/basicimg/src/img_vlfeat_mser.cpp
@@ -557,6 +557,10 @@ struct _MserFilt {
 
 	img_Connected_Type connect_type;
 
+	int min_point;
+
+	int max_point;
+
     /*@}*/
 
 
@@ -2164,9 +2168,9 @@ void mser_recogniztion(MserFilt* f) {
 
     {
 
-        float max_area = (float) f->max_area * nel;
+        int max_area = f->max_point;
 
-        float min_area = (float) f->min_area * nel;
+        int min_area = f->min_point;
 
         float max_var = (float) f->max_variation;
 
@@ -2194,7 +2198,7 @@ void mser_recogniztion(MserFilt* f) {
 
             }
 
-            if (er[i].area > max_area) {
+            if ((int) er[i].area > max_area) {
 
                 ++nbig;
 
@@ -2202,7 +2206,7 @@ void mser_recogniztion(MserFilt* f) {
 
             }
 
-            if (er[i].area < min_area) {
+            if ((int) er[i].area < min_area) {
 
                 ++nsmall;
 
@@ -2374,6 +2378,9 @@ void img_vlfeat_mser::allocate_memory(const mt_mat& src, const img_mask_info<u8>
 	f->from_min_max[1] = m_from_min_max[1];
 
 	f->connect_type = m_connected_type;
+
+	f->min_point = m_min_point;
+	f->max_point = m_max_point;
 }
 
 void img_vlfeat_mser::clear_memory_cache() {
-- 
2.43.0


From 0ce1f83ab95f928dee7177305e89320c90fa0c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:22 +0000
Subject: [PATCH 200/206] fix: the distance between points further apart than
 46340 overflowed

---
 basicmath/include/mt_point_t.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/basicmath/include/mt_point_t.h b/basicmath/include/mt_point_t.h
index 2b7e6c1..7a872e3 100644
--- a/basicmath/include/mt_point_t.h
+++ b/basicmath/include/mt_point_t.h
@@ -30,8 +30,9 @@ namespace basicmath {
 		}
 
 		f64 distance_to(const mt_point_t& other) {
-			T square = (other.m_x - m_x) * (other.m_x - m_x) + (other.m_y - m_y) * (other.m_y - m_y);
-			return sqrt((f64)square);
+			f64 x = (f64)other.m_x - m_x;
+			f64 y = (f64)other.m_y - m_y;
+			return sqrt(x * x + y * y);
 		}
 
 		T m_x;
-- 
2.43.0


From 7a01456781067f63b8a5ab304df816d04288d7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:22 +0000
Subject: [PATCH 201/206] fix: a size of fractional values was cut to whole
 ones, and so was that of a rectangle

---
 basicmath/include/mt_size_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_size_t.h b/basicmath/include/mt_size_t.h
index c7c1524..05c838c 100644
--- a/basicmath/include/mt_size_t.h
+++ b/basicmath/include/mt_size_t.h
@@ -7,7 +7,7 @@ namespace basicmath {
 	class mt_size_t {
 	public:
 
-		mt_size_t(int width = -1, int height = -1) {
+		mt_size_t(T width = -1, T height = -1) {
 			m_width = width;
 			m_height = height;
 		}
-- 
2.43.0


From a6eabde49b988739f0c8de482df463ca93e9f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 202/206] fix: V1 cut coordinates to 16 bits, so images with a
 side beyond 65535 got wrong pixels and boxes

---
 basicimg/include/img_fast_mser_v1.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index afec529..2089036 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -22,8 +22,8 @@ namespace basicimg {
 		class linked_point {
 		public:
 
-			u16 m_x;
-			u16 m_y;
+			i32 m_x;
+			i32 m_y;
 			i32 m_next;
 			i32 m_prev;
 			i32 m_ref;
@@ -68,7 +68,7 @@ namespace basicimg {
 
 
 
-			u16 m_left, m_right, m_top, m_bottom;
+			i32 m_left, m_right, m_top, m_bottom;
 
 			//img_mser* m_mser;
 			//mt_point* m_points;	//for debug
@@ -85,7 +85,7 @@ namespace basicimg {
 			i16 m_gray_level;	//to save value 256 we need the i16 type
 			i32 m_size;
 
-			u16 m_left, m_right, m_top, m_bottom;
+			i32 m_left, m_right, m_top, m_bottom;
 		};
 
 		class parallel_info {
-- 
2.43.0


From b90cb428ac33b635dd99ae235695d8de9eab2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 203/206] fix: V2 cut boxes to 16 bits, so images with a side
 beyond 32767 got wrong boxes

---
 basicimg/src/img_fast_mser_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ac1c098..c92bae8 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1685,7 +1685,7 @@ void img_fast_mser_v2::extract_pixel_parallel(img_multi_msers& msers, u8 gray_ma
 
 void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& msers, u8 gray_mask) {
 	//total block self pixel size, mser block self pixel size, self rect,
-	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
+	i32 one_block_mser_info_size = m_gray_order_region_size * 5 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
 	u32 partition_start_indexes[4];
@@ -1803,7 +1803,7 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 
 	struct mser_block_info {
 		i32 block_self_pixel_size;
-		i16 top, left, bottom, right;
+		i32 top, left, bottom, right;
 	};
 	
 	#pragma omp parallel for num_threads(4)
-- 
2.43.0


From 058ab156984bb07feadacdf4d12366574933f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:33 +0000
Subject: [PATCH 204/206] fix: a matrix of 2 GB and more was created with a
 wrapped size and written beyond its memory

---
 basicmath/src/mt_mat.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 47c4b49..c13748c 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1304,9 +1304,14 @@ void mt_mat::create(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel)
 
 	try_deallocate();
 
-	int data_size = element_size();
+	//sizes, steps and offsets are counted in i32
+	i64 data_size = element_size();
 	for (int i = 0; i < dims; ++i) {
 		data_size *= sizes[i];
+
+		if (data_size > mt_I32_Max) {
+			throw std::bad_alloc();
+		}
 	}
 
 	reference_info* reference = new reference_info();
-- 
2.43.0


From 00f47465d37e6f5a85f2f329f49b3e59a4ab35d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 205/206] fix: the stack of the edge search takes the pixels of
 a row that is longer than the stack

---
 basicimg/src/img_canny.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_canny.cpp b/basicimg/src/img_canny.cpp
index b5d3971..5a21119 100644
--- a/basicimg/src/img_canny.cpp
+++ b/basicimg/src/img_canny.cpp
@@ -209,7 +209,7 @@ void img_canny::canny_impl(mt_mat& edge) {
 
         if ((stack_top - stack_bottom) + cols > maxsize) {
             i32 sz = (i32)(stack_top - stack_bottom);
-            maxsize = maxsize * 3/2;
+            maxsize = max(maxsize * 3/2, sz + cols);
             m_stack.resize(maxsize);
             stack_bottom = &m_stack[0];
             stack_top = stack_bottom + sz;
-- 
2.43.0


From 4b97d2473d78c51422b321262c39d9a6f0333047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:39 +0000
Subject: [PATCH 206/206] fix: the derivative of a long computation by a matrix
 it does not depend on ends

---
 basicmath/include/mt_auto_derivative.h |  2 +-
 basicmath/src/mt_auto_derivative.cpp   | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_auto_derivative.h b/basicmath/include/mt_auto_derivative.h
index ace5c15..19b74ae 100644
--- a/basicmath/include/mt_auto_derivative.h
+++ b/basicmath/include/mt_auto_derivative.h
@@ -115,7 +115,7 @@ namespace basicmath {
 
 		void find_node_in_parent(vector<mt_ad_tree_node*>& parents, vector<i32>& child_indexs, const mt_ad_tree_node* node) const;
 
-		void derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat);
+		void derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat, vector<mt_ad_tree_node*>& no_ways);
 
 		mt_ad_tree_node* find_same(const mt_mat& mat) const;
 
diff --git a/basicmath/src/mt_auto_derivative.cpp b/basicmath/src/mt_auto_derivative.cpp
index d259e80..31af880 100644
--- a/basicmath/src/mt_auto_derivative.cpp
+++ b/basicmath/src/mt_auto_derivative.cpp
@@ -56,7 +56,8 @@ mt_mat mt_auto_derivative::derivative(const mt_mat& target, const mt_mat& src) {
 			if (target_node != NULL && m_nodes[i]->match(src)) {
 				m_nodes[i]->to_mat_tree_node()->add_derivative_res(mt_mat(src, 1), src);
 
-				derivative(target_node, m_nodes[i], src);
+				vector<mt_ad_tree_node*> no_ways;
+				derivative(target_node, m_nodes[i], src, no_ways);
 
 				res = target_node->to_mat_tree_node()->derivative_res(src);
 
@@ -456,7 +457,7 @@ b8 mt_auto_derivative::is_need_derivate(const mt_mat& target_mat, mt_ad_tree_nod
 //
 //}
 
-void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat) {
+void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_node* src, const mt_mat& src_mat, vector<mt_ad_tree_node*>& no_ways) {
 	if (target == src) {
 		m_computed_flag = sys_true;
 		return ;
@@ -466,6 +467,10 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 		return;
 	}
 
+	if (find(no_ways.begin(), no_ways.end(), target) != no_ways.end()) {
+		return;
+	}
+
 	vector<mt_ad_tree_node*> target_parents;
 	vector<i32> child_indexs;
 	find_node_in_parent(target_parents, child_indexs, target);
@@ -473,7 +478,7 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 	vector<mt_mat> res;
 
 	for (i32 i = 0; i < (i32)target_parents.size(); ++i) {
-		derivative(target_parents[i], src, src_mat);
+		derivative(target_parents[i], src, src_mat, no_ways);
 
 		if (!target_parents[i]->to_mat_tree_node()->derivative_res(src_mat).is_empty()) {
 			//basiclog_info2(target_parents[i]->to_mat_tree_node()->derivative_res(src_mat));
@@ -485,5 +490,7 @@ void mt_auto_derivative::derivative(mt_ad_tree_node* target, const mt_ad_tree_no
 	if (!res.empty()) {
 		mt_mat combine_res = mt_mat_helper::add(res, sys_true);
 		target->to_mat_tree_node()->add_derivative_res(combine_res, src_mat);
+	} else {
+		no_ways.push_back(target);
 	}
 }
\ No newline at end of file
-- 
2.43.0

