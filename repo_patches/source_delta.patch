From 9585f68f4c64a85e677689521d1e927b700e4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 01/62] fix: BVH partition index wraps around below zero when
 no primitive is left of the split

---
 source/bvh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 9b8a83c..44788a8 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -326,13 +326,13 @@ void Bvh::recreate(const uint8* vertices, const uint8* indices, const Aabb& root
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitives[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitives[i], primitives[j--]);
+				std::swap(primitives[i], primitives[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
@@ -459,13 +459,13 @@ void Bvh::recreate(const Aabb* aabbs, const Aabb& rootAabb, uint32 aabbCount, co
 			}
 		}
 
-		auto i = firstPrimitive, j = i + primitiveCount - 1;
-		while (i <= j)
+		auto i = firstPrimitive, j = i + primitiveCount;
+		while (i < j)
 		{
 			if (centroidData[primitiveData[i]][axis] < split)
 				i++;
 			else
-				std::swap(primitiveData[i], primitiveData[j--]);
+				std::swap(primitiveData[i], primitiveData[--j]);
 		}
 
 		auto count1 = i - firstPrimitive;
-- 
2.43.0


From 3b309a4c375b6442c67f657a92a87c9cadbaa5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 02/62] fix: BVH bin primitive counter shares a vector lane
 with the bin bounds

---
 source/bvh.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 44788a8..49f5f00 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -67,8 +67,7 @@ namespace math
 	{
 		f32x4 min = f32x4::max;
 		f32x4 max = f32x4::minusMax;
-
-		int32& primitiveCount() noexcept { return max.ints.w; }
+		int32 primitiveCount = 0;
 	};
 }
 
@@ -119,7 +118,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 			auto& bin = bins[binIndex];
 			bin.min = min(min(min(bin.min, v0), v1), v2);
 			bin.max = max(max(max(bin.max, v0), v1), v2);
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		float leftArea[BIN_COUNT - 1], rightArea[BIN_COUNT - 1];
@@ -130,12 +129,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
@@ -193,7 +192,7 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 			auto& bin = bins[binIndex];
 			bin.min = min(bin.min, aabb.getMin());
 			bin.max = max(bin.max, aabb.getMax());
-			bin.primitiveCount()++;
+			bin.primitiveCount++;
 		}
 
 		// TODO: share this function part with a previous one?
@@ -205,12 +204,12 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		for (int i = 0; i < BIN_COUNT - 1; i++)
 		{
-			leftSum += bins[i].primitiveCount();
+			leftSum += bins[i].primitiveCount;
 			leftCount[i] = leftSum;
 			leftMin = min(leftMin, bins[i].min);
 			leftMax = max(leftMax, bins[i].max);
 			leftArea[i] = calcArea(leftMin, leftMax);
-			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount();
+			rightSum += bins[(BIN_COUNT - 1) - i].primitiveCount;
 			rightCount[(BIN_COUNT - 2) - i] = rightSum;
 			rightMin = min(rightMin, bins[(BIN_COUNT - 1) - i].min);
 			rightMax = max(rightMax, bins[(BIN_COUNT - 1) - i].max);
-- 
2.43.0


From 38bc8b4f99303f2a5e143e0679dbd014e9df6b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 03/62] fix: BVH bin index out of range when the centroid
 extent overflows or underflows

---
 source/bvh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/bvh.cpp b/source/bvh.cpp
index 49f5f00..c1e6c36 100644
--- a/source/bvh.cpp
+++ b/source/bvh.cpp
@@ -101,6 +101,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, uint
 
 		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale == 0.0f || std::isinf(scale)) // Extent overflow or underflow, can't bin along this axis.
+			continue;
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
@@ -182,6 +184,8 @@ static void findBestSplitPlane(uint32 firstPrimitive, uint32 lastPrimitive, cons
 
 		Bin bins[BIN_COUNT] = {};
 		auto scale = BIN_COUNT / (boundsMax - boundsMin);
+		if (scale == 0.0f || std::isinf(scale)) // Extent overflow or underflow, can't bin along this axis.
+			continue;
 
 		for (uint32 i = firstPrimitive; i < lastPrimitive; i++)
 		{
-- 
2.43.0


From 15805ad28d7b557be47a7f9d6fbb5e23cb2d15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 04/62] fix: Aabb trySet accepts min corners that are above the
 max corner

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 11b56a4..748c794 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -107,7 +107,7 @@ public:
 	 */
 	bool trySet(f32x4 min, f32x4 max) noexcept
 	{
-		if (areAllTrue(f32x4(min, 0.0f) > f32x4(max, 1.0f)))
+		if (!areAllTrue(f32x4(min, 0.0f) <= f32x4(max, 1.0f)))
 			return false;
 		this->min = min; this->max = max;
 		return true;
-- 
2.43.0


From c57b56f5d6082692821974e5dc459ac2f5fe6257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 05/62] fix: AABB intersection test compares the min corner
 with the max corner twice

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 748c794..127e9c5 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -424,7 +424,7 @@ static bool raycastI(const Aabb& aabb, const Ray& ray) noexcept
  */
 static bool isIntersected(const Aabb& a, const Aabb& b) noexcept
 {
-	return areAllTrue(a.getMin() <= b.getMax() & a.getMin() >= b.getMax());
+	return areAllTrue(f32x4(a.getMin(), 0.0f) <= f32x4(b.getMax(), 0.0f) & f32x4(a.getMax(), 0.0f) >= f32x4(b.getMin(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 1d71eeeb483b85bcd10050e0d0bc1de9c86c64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 06/62] fix: AABB inside tests depend on the unused fourth
 vector component

---
 include/math/aabb.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 127e9c5..89b0980 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -284,7 +284,7 @@ static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(
  */
 static bool isInside(const Aabb& aabb, f32x4 point) noexcept
 {
-	return areAllTrue(aabb.getMin() <= point & aabb.getMax() >= point);
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(point, 0.0f) & f32x4(aabb.getMax(), 0.0f) >= f32x4(point, 0.0f));
 }
 /**
  * @brief Returns true if other AABB is inside this AABB in 3D space.
@@ -294,7 +294,8 @@ static bool isInside(const Aabb& aabb, f32x4 point) noexcept
  */
 static bool isInside(const Aabb& aabb, const Aabb& other) noexcept
 {
-	return areAllTrue(aabb.getMin() <= other.getMin() & aabb.getMax() >= other.getMax());
+	return areAllTrue(f32x4(aabb.getMin(), 0.0f) <= f32x4(other.getMin(), 0.0f) & 
+		f32x4(aabb.getMax(), 0.0f) >= f32x4(other.getMax(), 0.0f));
 }
 
 /**
-- 
2.43.0


From 6d5235366b3e8a1fa6442dbf3fd97632dc9fea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 07/62] fix: AABB binary less ignores the max corner Z and
 compares the unused fourth component

---
 include/math/aabb.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 89b0980..eba9a92 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -274,7 +274,12 @@ inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
  * @param[in] a first AABB to binary compare
  * @param[in] b second AABB to binary compare
  */
-static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept { return memcmp(&a, &b, sizeof(float3) * 2) < 0; }
+static bool isBinaryLess(const Aabb& a, const Aabb& b) noexcept
+{
+	auto aMin = a.getMin(), aMax = a.getMax(), bMin = b.getMin(), bMax = b.getMax();
+	auto result = memcmp(&aMin, &bMin, sizeof(float3));
+	return (result != 0 ? result : memcmp(&aMax, &bMax, sizeof(float3))) < 0;
+}
 
 /***********************************************************************************************************************
  * @brief Returns true if point is inside the AABB in 3D space.
-- 
2.43.0


From b9a020928041be4f346e81b6607463ad5083eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 08/62] fix: AABB raycast normalizes the inversed ray direction
 and misses parallel axes

---
 include/math/aabb.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index eba9a92..f184137 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -323,17 +323,18 @@ static f32x4 closestPoint(const Aabb& aabb, f32x4 point) noexcept
  */
 static float2 raycast2I(Aabb aabb, Ray ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Inverse of the zero direction axis is infinite.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 
@@ -350,7 +351,7 @@ static float2 raycast2I(Aabb aabb, Ray ray) noexcept
  */
 static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast2I(aabb, ray);
 }
 
@@ -363,17 +364,18 @@ static float2 raycast2(const Aabb& aabb, Ray ray) noexcept
  */
 static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
 {
+	auto isParallel = abs(ray.getDirection()) >= f32x4(1.0e20f); // Inverse of the zero direction axis is infinite.
 	auto t1 = (aabb.getMin() - ray.origin) * ray.getDirection();
 	auto t2 = (aabb.getMax() - ray.origin) * ray.getDirection();
-	auto tMin = select(ray.getParallel(), f32x4::minusMax, min(t1, t2));
-	auto tMax = select(ray.getParallel(), f32x4::max, max(t1, t2));
+	auto tMin = select(isParallel, f32x4::minusMax, min(t1, t2));
+	auto tMax = select(isParallel, f32x4::max, max(t1, t2));
 	tMin = max(tMin, tMin.swizzle<SwY, SwZ, SwX>());
 	tMin = max(tMin, tMin.swizzle<SwZ, SwX, SwY>());
 	tMax = min(tMax, tMax.swizzle<SwY, SwZ, SwX>());
 	tMax = min(tMax, tMax.swizzle<SwZ, SwX, SwY>());
 
 	auto noParallelOverlap = (ray.origin < aabb.getMin()) | (ray.origin > aabb.getMax());
-	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (ray.getParallel() & noParallelOverlap);
+	auto noIntersection = (tMin > tMax) | (tMax < f32x4::zero) | (isParallel & noParallelOverlap);
 	noIntersection |= noIntersection.splatY();
 	noIntersection |= noIntersection.splatZ();
 	return select(noIntersection, f32x4::max, tMin).getX();
@@ -387,7 +389,7 @@ static float raycast1I(const Aabb& aabb, const Ray& ray) noexcept
  */
 static float raycast1(const Aabb& aabb, Ray ray) noexcept
 {
-	ray.setDirection(f32x4::one / ray.getDirection());
+	ray.setDirection(f32x4::one / ray.getDirection(), false);
 	return raycast1I(aabb, ray);
 }
 
-- 
2.43.0


From ec3166da8c60dc3e0d15814b3ae9e1c377c08515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 09/62] fix: Ray constructor leaves the parallel axes mask
 unset

---
 include/math/ray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index ef832bc..1df6396 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -46,8 +46,10 @@ public:
 	 * @param direction ray direction vector in 3D space
 	 * @param normalize is direction vector should be normalized
 	 */
-	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : 
-		direction(normalize ? normalize3(direction) : direction), origin(origin) { }
+	Ray(f32x4 origin, f32x4 direction, bool normalize = true) noexcept : origin(origin)
+	{
+		setDirection(direction, normalize);
+	}
 	/**
 	 * @brief Creates a new empty ray structure.
 	 */
-- 
2.43.0


From bf2cddc01f7ebcd50a64c7aa9f47a8a69e91145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 10/62] fix: Aabb::full covers only the positive octant

---
 include/math/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index f184137..9194c89 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -265,7 +265,7 @@ inline const Aabb Aabb::zero = Aabb(f32x4::zero, f32x4::zero);
 inline const Aabb Aabb::one = Aabb(f32x4(-0.5f), f32x4(0.5f));
 inline const Aabb Aabb::two = Aabb(f32x4::minusOne, f32x4::one);
 inline const Aabb Aabb::half = Aabb(f32x4(-0.25f), f32x4(0.25f));
-inline const Aabb Aabb::full = Aabb(f32x4::min, f32x4::max);
+inline const Aabb Aabb::full = Aabb(f32x4::minusMax, f32x4::max);
 inline const Aabb Aabb::inf = Aabb(f32x4::minusInf, f32x4::inf);
 
 /**
-- 
2.43.0


From a800fc2a5e95e4f82e94f7abba841f0703f9fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 11/62] fix: point on the extension of the triangle edge counts
 as inside

---
 include/math/triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index cb81804..d5e1fc6 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -74,7 +74,7 @@ static bool isInside(const Triangle& triangle, f32x4 point) noexcept
 {
 	auto p0 = triangle.p0 - point, p1 = triangle.p1 - point, p2 = triangle.p2 - point;
 	auto u = cross3(p1, p2), v = cross3(p2, p0), w = cross3(p0, p1);
-	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f)
+	if (dot3(u, v) < 0.0f || dot3(u, w) < 0.0f || dot3(v, w) < 0.0f)
 		return false;
 	return true;
 }
-- 
2.43.0


From 375cb82d9d5fa85d342d46688cc484081e053d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 12/62] fix: plane from the triangle has a negated distance

---
 include/math/plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 174b988..0204986 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -64,7 +64,7 @@ public:
 		auto normal = cross3(triangle.p1 - triangle.p0, triangle.p2 - triangle.p0);
 		if (length3(normal) > 0.0f)
 			normal = normalize3(normal);
-		auto distance = dot3(normal, triangle.p0);
+		auto distance = -dot3(normal, triangle.p0);
 		normDist = f32x4(normal, distance);
 	}
 
-- 
2.43.0


From f60518ee3579f23626ed780e24c95be62c77df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 13/62] fix: int3 constructor from int2 and scalar takes the
 third component from the first one

---
 include/math/vector/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/vector/int.hpp b/include/math/vector/int.hpp
index 5f60ace..415e5ce 100644
--- a/include/math/vector/int.hpp
+++ b/include/math/vector/int.hpp
@@ -193,7 +193,7 @@ struct [[nodiscard]] int3
 	 * @param xy first and second vector components value
 	 * @param z third vector component value
 	 */
-	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(x) { }
+	constexpr int3(int2 xy, int32 z) noexcept : x(xy.x), y(xy.y), z(z) { }
 	/**
 	 * @brief Creates a new signed integer 3 component vector structure.
 	 *
-- 
2.43.0


From 228a2d1e898216acea8d94fa4e1c8a2bee05c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 14/62] fix: SIMD select does not compile on platforms without
 vector instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ec18d7f..d5bb148 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -735,7 +735,7 @@ static f32x4 select(u32x4 c, f32x4 t, f32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_f32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return f32x4(select(c.floats, t.floats, f.floats));
+	return f32x4(select(c.uints, t.floats, f.floats));
 	#endif
 }
 
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index b5a369d..d0c5433 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -759,7 +759,7 @@ static i32x4 select(u32x4 c, i32x4 t, i32x4 f) noexcept
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vbslq_s32(vreinterpretq_u32_s32(vshrq_n_s32(vreinterpretq_s32_u32(c.data), 31)), t.data, f.data);
 	#else
-	return i32x4(select(c.ints, t.ints, f.ints));
+	return i32x4(select(c.uints, t.ints, f.ints));
 	#endif
 }
 
-- 
2.43.0


From 8344164d3f6b9e0a9e41d81980fab1aea38954ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 15/62] fix: SIMD vector constructor from pointer repeats the
 first value on platforms without vector instructions

---
 include/math/simd/vector/float.hpp | 2 +-
 include/math/simd/vector/int.hpp   | 2 +-
 include/math/simd/vector/uint.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index d5bb148..465c41c 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -222,7 +222,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_f32(v);
 		#else
-		floats = *v;
+		floats = *((const float4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/int.hpp b/include/math/simd/vector/int.hpp
index d0c5433..6586ad0 100644
--- a/include/math/simd/vector/int.hpp
+++ b/include/math/simd/vector/int.hpp
@@ -199,7 +199,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) i32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_s32(v);
 		#else
-		ints = *v;
+		ints = *((const int4*)v);
 		#endif
 	}
 	
diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 9468203..563b18b 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -190,7 +190,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vld1q_u32(v);
 		#else
-		uints = *v;
+		uints = *((const uint4*)v);
 		#endif
 	}
 	
-- 
2.43.0


From 65489ce3d19c8faf423e8be8646f03ca2221c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 16/62] fix: unsigned SIMD vector is compared as a signed one
 on SSE

---
 include/math/simd/vector/uint.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 563b18b..1d6800e 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -555,7 +555,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmplt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(0x80000000); // SSE has only signed integer comparison.
+		return _mm_cmplt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcltq_u32(data, v.data);
 		#else
@@ -565,7 +566,8 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cmpgt_epi32(data, v.data);
+		auto sign = _mm_set1_epi32(0x80000000); // SSE has only signed integer comparison.
+		return _mm_cmpgt_epi32(_mm_xor_si128(data, sign), _mm_xor_si128(v.data, sign));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgtq_u32(data, v.data);
 		#else
@@ -575,7 +577,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator<=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmplt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto sign = _mm_set1_epi32(0x80000000); // SSE has only signed integer comparison.
+		return _mm_or_si128(_mm_cmplt_epi32(_mm_xor_si128(data, sign), 
+			_mm_xor_si128(v.data, sign)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcleq_u32(data, v.data);
 		#else
@@ -585,7 +589,9 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) u32x4
 	u32x4 operator>=(u32x4 v) const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_or_si128(_mm_cmpgt_epi32(data, v.data), _mm_cmpeq_epi32(data, v.data));
+		auto sign = _mm_set1_epi32(0x80000000); // SSE has only signed integer comparison.
+		return _mm_or_si128(_mm_cmpgt_epi32(_mm_xor_si128(data, sign), 
+			_mm_xor_si128(v.data, sign)), _mm_cmpeq_epi32(data, v.data));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcgeq_u32(data, v.data);
 		#else
-- 
2.43.0


From 69d41511830f14c8c947c8d956b890387d562d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 17/62] fix: unsigned SIMD vector minimum and maximum are
 signed on SSE4.1

---
 include/math/simd/vector/uint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 1d6800e..b36613e 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -801,7 +801,7 @@ static u32x4 select(u32x4 c, u32x4 t, u32x4 f) noexcept
 static u32x4 min(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_min_epi32(a.data, b.data);
+	return _mm_min_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminq_u32(a.data, b.data);
 	#else
@@ -817,7 +817,7 @@ static u32x4 min(u32x4 a, u32x4 b) noexcept
 static u32x4 max(u32x4 a, u32x4 b) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
-	return _mm_max_epi32(a.data, b.data);
+	return _mm_max_epu32(a.data, b.data);
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxq_u32(a.data, b.data);
 	#else
-- 
2.43.0


From cc6283a98a4467d71842ecd3496dded0bafcaa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 18/62] fix: SIMD mask queries look only at the highest bit of
 each byte on SSE

---
 include/math/simd/vector/uint.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index b36613e..efb52a5 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -659,7 +659,7 @@ static int getTrues(u32x4 v) noexcept
 static bool areAllTrue(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) == 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) == 0xFFFFFFFFu;
 	#else
@@ -674,7 +674,7 @@ static bool areAllFalse(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return _mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return !_mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) == 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return !vmaxvq_u32(v.data);
 	#else
@@ -689,7 +689,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 	#if defined(MATH_SIMD_SUPPORT_SSE4_1)
 	return !_mm_testz_si128(v.data, v.data);
 	#elif defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data);
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_setzero_si128())) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vmaxvq_u32(v.data);
 	#else
@@ -702,7 +702,7 @@ static bool areAnyTrue(u32x4 v) noexcept
 static bool areAnyFalse(u32x4 v) noexcept
 {
 	#if defined(MATH_SIMD_SUPPORT_SSE)
-	return _mm_movemask_epi8(v.data) != 0xFFFF;
+	return _mm_movemask_epi8(_mm_cmpeq_epi32(v.data, _mm_set1_epi32(0xFFFFFFFF))) != 0xFFFF;
 	#elif defined(MATH_SIMD_SUPPORT_NEON)
 	return vminvq_u32(v.data) != 0xFFFFFFFFu;
 	#else
-- 
2.43.0


From eb4b08c5247d8ed3c92d5ea37b815b405ea9e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 19/62] fix: SIMD conversion between float and unsigned integer
 is limited to the signed range on SSE

---
 include/math/simd/vector/float.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 465c41c..ef70f74 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -147,7 +147,10 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit f32x4(u32x4 v)
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		data = _mm_cvtepi32_ps(v.data);
+		// SSE has only signed integer conversion, both halves are exact.
+		auto low = _mm_cvtepi32_ps(_mm_and_si128(v.data, _mm_set1_epi32(0xFFFF)));
+		auto high = _mm_cvtepi32_ps(_mm_srli_epi32(v.data, 16));
+		data = _mm_add_ps(_mm_mul_ps(high, _mm_set1_ps(65536.0f)), low);
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
@@ -393,7 +396,11 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 	explicit operator u32x4() const noexcept
 	{
 		#if defined(MATH_SIMD_SUPPORT_SSE)
-		return _mm_cvttps_epi32(data);
+		// SSE has only signed integer conversion, values above INT32_MAX are shifted down by 2^31.
+		auto isBig = _mm_cmpge_ps(data, _mm_set1_ps(2147483648.0f));
+		auto value = _mm_sub_ps(data, _mm_and_ps(isBig, _mm_set1_ps(2147483648.0f)));
+		return _mm_xor_si128(_mm_cvttps_epi32(value), _mm_and_si128(
+			_mm_castps_si128(isBig), _mm_set1_epi32(0x80000000)));
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_u32_f32(data);
 		#else
@@ -1208,7 +1215,7 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)e);
+		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
 		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
 		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
-- 
2.43.0


From c69503403169a250774bc2ae08e90931c8d636d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 20/62] fix: SIMD conversion between float and integer on
 platforms without vector instructions

---
 include/math/simd/vector/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index ef70f74..84307ba 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -154,7 +154,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_u32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.uints);
 		#endif
 	}
 	/**
@@ -168,7 +168,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		data = vcvtq_f32_s32(v.data);
 		#else
-		floats = v.floats;
+		floats = float4(v.ints);
 		#endif
 	}
 
@@ -417,7 +417,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4
 		#elif defined(MATH_SIMD_SUPPORT_NEON)
 		return vcvtq_s32_f32(data);
 		#else
-		return i32x4((uint4)floats);
+		return i32x4((int4)floats);
 		#endif
 	}
 
-- 
2.43.0


From 57fcdc255f4082f1e12252bdc286b37658e2307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 21/62] fix: float2 equal and notEqual take a four component
 vector as the second argument

---
 include/math/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/vector/float.hpp b/include/math/vector/float.hpp
index 413ca3d..cdec884 100644
--- a/include/math/vector/float.hpp
+++ b/include/math/vector/float.hpp
@@ -562,7 +562,7 @@ static string toString(float2 v) { return to_string(v.x) + " " + to_string(v.y);
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 equal(float2 a, float4 b) noexcept
+static uint2 equal(float2 a, float2 b) noexcept
 {
 	return uint2(a.x == b.x ? UINT32_MAX : 0, a.y == b.y ? UINT32_MAX : 0);
 }
@@ -572,7 +572,7 @@ static uint2 equal(float2 a, float4 b) noexcept
  * @param a first vector to compare
  * @param b second vector to compare
  */
-static uint2 notEqual(float2 a, float4 b) noexcept
+static uint2 notEqual(float2 a, float2 b) noexcept
 {
 	return uint2(a.x != b.x ? UINT32_MAX : 0, a.y != b.y ? UINT32_MAX : 0);
 }
-- 
2.43.0


From 42da07ff2e08e0aa754917bb04613e4a58f498ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 22/62] fix: SIMD logarithm polynomial has a duplicated
 coefficient

---
 include/math/simd/vector/float.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 84307ba..76b2ba9 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1211,7 +1211,6 @@ static f32x4 log(f32x4 v) noexcept
 		auto t = f32x4(0.2392828464508056640625f);
 		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.400005877017974853515625f));
-		t = fma(t, x2, f32x4(0.28518211841583251953125f));
 		t = fma(t, x2, f32x4(0.666666686534881591796875f));
 		t = fma(t, x2, f32x4(2.0f));
 
-- 
2.43.0


From eebec9428378d2b265149f9fc4e633b3d30bc150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 23/62] fix: SIMD logarithm of positive infinity and of not a
 number

---
 include/math/simd/vector/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 76b2ba9..bc667aa 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1215,8 +1215,8 @@ static f32x4 log(f32x4 v) noexcept
 		t = fma(t, x2, f32x4(2.0f));
 
 		x = fma(x, t, f32x4(0.693147180559945286226764f) * (f32x4)uintAsInt(e));
-		x = select(equal(v, f32x4::inf) | equal(v, f32x4::minusInf), f32x4::minusInf, x);
-		x = select((v < f32x4::zero) | equal(v, f32x4::nan), f32x4::nan, x);
+		x = select(equal(v, f32x4::inf), f32x4::inf, x);
+		x = select((v < f32x4::zero) | notEqual(v, v), f32x4::nan, x);
 		x = select(equal(v, f32x4::zero), f32x4::minusInf, x);
 		return x;
 	}
-- 
2.43.0


From 3636d77fb9c4b745b4ac98342cac9d56d9433e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 24/62] fix: SIMD exponential function of not a number is zero

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index bc667aa..9c3d1e1 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1252,7 +1252,7 @@ static f32x4 exp(f32x4 v) noexcept
 		u = u * intAsFloat(((q >> 1) + 0x7f) << 23) * 
 			intAsFloat(((q - (q >> 1)) + 0x7f) << 23);
 
-		u = uintAsFloat(floatAsUint(u) & (v >= -104.0f));
+		u = uintAsFloat(floatAsUint(u) & ~(v < -104.0f));
 		u = select(v > 104.0f, f32x4::inf, u);
 		return u;
 	}
-- 
2.43.0


From b0e6704341213dae36cadabf1f3d850f1c386e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 25/62] fix: product of a vector and a matrix scales the vector
 by the row sums

---
 include/math/matrix/float.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 95a2233..dc4e2b1 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -575,8 +575,8 @@ static constexpr float2x2 operator/(float n, const float2x2& m) noexcept { retur
 static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 {
 	return float2(
-		m.c0.x * v.x + m.c1.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y);
+		m.c0.x * v.x + m.c0.y * v.y,
+		m.c1.x * v.x + m.c1.y * v.y);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -587,9 +587,9 @@ static constexpr float2 operator*(float2 v, float2x2 m) noexcept
 static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 {
 	return float3(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z);
 }
 /**
  * @brief Calculates dot product between vector and matrix.
@@ -600,10 +600,10 @@ static constexpr float3 operator*(float3 v, const float3x3& m) noexcept
 static constexpr float4 operator*(float4 v, const float4x4& m) noexcept
 {
 	return float4(
-		m.c0.x * v.x + m.c1.x * v.x + m.c2.x * v.x + m.c3.x * v.x,
-		m.c0.y * v.y + m.c1.y * v.y + m.c2.y * v.y + m.c3.y * v.y,
-		m.c0.z * v.z + m.c1.z * v.z + m.c2.z * v.z + m.c3.z * v.z,
-		m.c0.w * v.w + m.c1.w * v.w + m.c2.w * v.w + m.c3.w * v.w);
+		m.c0.x * v.x + m.c0.y * v.y + m.c0.z * v.z + m.c0.w * v.w,
+		m.c1.x * v.x + m.c1.y * v.y + m.c1.z * v.z + m.c1.w * v.w,
+		m.c2.x * v.x + m.c2.y * v.y + m.c2.z * v.z + m.c2.w * v.w,
+		m.c3.x * v.x + m.c3.y * v.y + m.c3.z * v.z + m.c3.w * v.w);
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From ac78bce9cc60109c58c9039ee0c6dd1697cd6345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 26/62] fix: inverse of the 2x2 matrix is transposed

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index dc4e2b1..a426f0e 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -647,8 +647,8 @@ static constexpr float4x4 transpose(float4x4 m) noexcept
 static constexpr float2x2 inverse(float2x2 m) noexcept
 {
 	auto oneOverDeterminant = 1.0f / (m.c0.x * m.c1.y - m.c1.x * m.c0.y);
-	return float2x2(m.c1.y * oneOverDeterminant, -m.c0.y * oneOverDeterminant,
-		-m.c1.x * oneOverDeterminant, m.c0.x * oneOverDeterminant);
+	return float2x2(m.c1.y * oneOverDeterminant, -m.c1.x * oneOverDeterminant,
+		-m.c0.y * oneOverDeterminant, m.c0.x * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From d255220731b4c0fd91ed52e60a037b15f1b68c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 27/62] fix: inverse of the 3x3 matrix is transposed and has
 wrong cofactors

---
 include/math/matrix/float.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index a426f0e..8fad1c2 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -662,14 +662,14 @@ static constexpr float3x3 inverse(float3x3 m) noexcept
 		m.c2.x * (m.c0.y * m.c1.z - m.c1.y * m.c0.z));
 	return float3x3(
 		(m.c1.y * m.c2.z - m.c2.y * m.c1.z) * oneOverDeterminant,
-		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
-		(m.c0.y * m.c2.z - m.c1.y * m.c0.z) * oneOverDeterminant,
 		-(m.c1.x * m.c2.z - m.c2.x * m.c1.z) * oneOverDeterminant,
-		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
-		-(m.c0.x * m.c2.z - m.c1.x * m.c0.z) * oneOverDeterminant,
 		(m.c1.x * m.c2.y - m.c2.x * m.c1.y) * oneOverDeterminant,
+		-(m.c0.y * m.c2.z - m.c2.y * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c2.z - m.c2.x * m.c0.z) * oneOverDeterminant,
 		-(m.c0.x * m.c2.y - m.c2.x * m.c0.y) * oneOverDeterminant,
-		(m.c0.x * m.c2.y - m.c1.x * m.c0.y) * oneOverDeterminant);
+		(m.c0.y * m.c1.z - m.c1.y * m.c0.z) * oneOverDeterminant,
+		-(m.c0.x * m.c1.z - m.c1.x * m.c0.z) * oneOverDeterminant,
+		(m.c0.x * m.c1.y - m.c1.x * m.c0.y) * oneOverDeterminant);
 }
 /**
  * @brief Calculates matrix inverse. (Usefull for undoing transformations)
-- 
2.43.0


From b5c096d4a23d92490bef3bcfc5c09c5f2030efec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 28/62] fix: float4x3 column access asserts on the fourth
 column

---
 include/math/matrix/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 8fad1c2..143124a 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -306,7 +306,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3& operator[](psize i) noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 	/**
@@ -315,7 +315,7 @@ struct [[nodiscard]] float4x3
 	 */
 	float3 operator[](psize i) const noexcept
 	{
-		assert(i <= 2);
+		assert(i <= 3);
 		return ((float3*)this)[i];
 	}
 
-- 
2.43.0


From 26258dc8d42b2237cd08d5704091532e2adde39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 29/62] fix: rotation matrix from two vectors is ambiguous
 because both overloads default the up vector

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 6f51f71..e0219f9 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -145,7 +145,7 @@ static f32x4x4 rotate(quat q) noexcept
  * @param lookTo object position in 3D space
  * @param up space up direction vector
  */
-static f32x4x4 rotate(f32x4 lookFrom, f32x4 lookTo, f32x4 up = f32x4::top) noexcept
+static f32x4x4 rotate(f32x4 lookFrom, f32x4 lookTo, f32x4 up) noexcept
 {
 	auto f = normalize3(lookTo - lookFrom);
 	auto s = normalize3(cross3(up, f));
-- 
2.43.0


From 61c77e11387dc0478c1f758c5e0186dfc61a9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 30/62] fix: inverse of the translated and rotated matrix keeps
 the translation in the last row

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index e0219f9..082c630 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -319,7 +319,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
  */
 static f32x4x4 inverseTransRot(const f32x4x4& m)
 {
-	auto t = transpose4x4(m);
+	auto t = transpose3x3(m);
 	setTranslation(t, -multiply3x3(t, getTranslation(m)));
 	return t;
 }
-- 
2.43.0


From 0e0cea12f7f55efb963a9ee8d29e0a35d9c6ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 31/62] fix: extracted matrix scale is squared

---
 include/math/matrix/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index 082c630..bf4d1f9 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -110,7 +110,7 @@ static f32x4x4 scale(f32x4 s, const f32x4x4& m) noexcept
  */
 static f32x4 extractScale(const f32x4x4& m) noexcept
 {
-	return f32x4(lengthSq3(m.c0), lengthSq3(m.c1), lengthSq3(m.c2));
+	return f32x4(length3(m.c0), length3(m.c1), length3(m.c2));
 }
 /**
  * @brief Extracts total SIMD matrix 2D scale transformation of an object in 3D space.
@@ -118,7 +118,7 @@ static f32x4 extractScale(const f32x4x4& m) noexcept
  */
 static float2 extractScale2(const f32x4x4& m) noexcept
 {
-	return float2(lengthSq3(m.c0), length3(m.c1));
+	return float2(length3(m.c0), length3(m.c1));
 }
 
 /***********************************************************************************************************************
-- 
2.43.0


From 907ef012afe89160ce7a75b50d5e1f626c96ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:31 +0000
Subject: [PATCH 32/62] fix: quaternion pitch is wrong when only one of the
 arctangent arguments is zero

---
 include/math/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index e881444..d8cc435 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON || std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
-- 
2.43.0


From 480e9b02fc47d37107affc89edccfc7295c84238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 33/62] fix: 3x3 transposition puts the last column into the
 fourth lanes on platforms without vector instructions

---
 include/math/simd/matrix/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index c93990a..1bc07f8 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -389,9 +389,9 @@ static f32x4x4 transpose3x3(const f32x4x4& m) noexcept
 	#else
 	auto r = transpose((float3x3)m);
 	return f32x4x4(
-		f32x4(r.c0.x, r.c0.y, r.c0.z, m.c3.floats.x), 
-		f32x4(r.c1.x, r.c1.y, r.c1.z, m.c3.floats.y), 
-		f32x4(r.c2.x, r.c2.y, r.c2.z, m.c3.floats.z), m.c3);
+		f32x4(r.c0.x, r.c0.y, r.c0.z, 0.0f), 
+		f32x4(r.c1.x, r.c1.y, r.c1.z, 0.0f), 
+		f32x4(r.c2.x, r.c2.y, r.c2.z, 0.0f), m.c3);
 	#endif
 }
 
-- 
2.43.0


From f03a3c6417d24a5c45e162f0a5b0ca6aca607713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 34/62] fix: extracted Euler angles describe another rotation
 when the yaw is a quarter turn

---
 include/math/quaternion.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/math/quaternion.hpp b/include/math/quaternion.hpp
index d8cc435..bdbedc1 100644
--- a/include/math/quaternion.hpp
+++ b/include/math/quaternion.hpp
@@ -112,7 +112,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 		auto xx = w * w - x * x - y * y + z * z;
 
 		// Avoid atan2(0, 0) - handle singularity - Matiis
-		if (std::abs(xx) <= FLT_EPSILON && std::abs(yy) <= FLT_EPSILON)
+		if (std::abs(xx) <= FLT_EPSILON * 4.0f && std::abs(yy) <= FLT_EPSILON * 4.0f)
 			return 2.0f * std::atan2(x, w);
 		return std::atan2(yy, xx);
 	}
@@ -129,7 +129,13 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) quat : public f32x4
 	float extractRoll() const noexcept
 	{
 		auto x = getX(), y = getY(), z = getZ(), w = getW();
-		return std::atan2(2.0f * (x * y + w * z), w * w + x * x - y * y - z * z);
+		auto yy = 2.0f * (x * y + w * z);
+		auto xx = w * w + x * x - y * y - z * z;
+
+		// Pitch holds the whole rotation at the singularity.
+		if (std::abs(xx) <= FLT_EPSILON * 4.0f && std::abs(yy) <= FLT_EPSILON * 4.0f)
+			return 0.0f;
+		return std::atan2(yy, xx);
 	}
 	/**
 	 * @brief Calculates SIMD quaternion euler angles. (In radians)
-- 
2.43.0


From ea777496495d789d09b50b82d13a245733011b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 35/62] fix: look at quaternion is built from a degenerate
 matrix

---
 include/math/matrix/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/matrix/transform.hpp b/include/math/matrix/transform.hpp
index bf4d1f9..2d3885d 100644
--- a/include/math/matrix/transform.hpp
+++ b/include/math/matrix/transform.hpp
@@ -307,7 +307,7 @@ static quat lookAtQuat(f32x4 direction, f32x4 up = f32x4::top) noexcept
 {
 	auto right = cross3(up, direction);
 	auto c0 = right * (1.0f / std::sqrt(std::max(0.00001f, dot3(right, right))));
-	auto c1 = cross3(right, c0);
+	auto c1 = cross3(direction, c0);
 	auto m = f32x4x4(c0, c1, direction);
 	return extractQuat(m);
 }
-- 
2.43.0


From 80e2cf44497450eb16708f61a8a605b3556d2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 36/62] fix: PackedVector::set() returned the value of a void
 call and never compiled

---
 include/math/packed-vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 335ecd5..09eda86 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -85,7 +85,7 @@ public:
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
-	uint8 set(psize i, uint8 value) noexcept
+	void set(psize i, uint8 value) noexcept
 	{
 		if constexpr (Bits == 1)
 			assert(i / 8 < size());
@@ -93,7 +93,7 @@ public:
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
 			assert(i / 8 < size());
-		return unsafeSet(i, value);
+		unsafeSet(i, value);
 	}
 
 	void resize(psize elementCount)
-- 
2.43.0


From 602c4d87c8714ec80e970f4701b74b75812a5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 37/62] fix: PackedVector kept a stale data pointer after
 copies, moves, swaps and reallocations

---
 include/math/packed-vector.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 09eda86..9fc0d58 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -27,8 +27,6 @@ namespace math
 template<int Bits = 1>
 class PackedVector final : public std::vector<uint8>
 {
-private:
-	uint8* ptr = nullptr;
 public:
 	PackedVector()
 	{
@@ -44,15 +42,15 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			return (ptr[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
+			return (data()[i / 8] >> (uint8)(i % 8)) & (uint8)0x01;
 		}
 		else if constexpr (Bits == 2)
 		{
-			return (ptr[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
+			return (data()[i / 4] >> (uint8)((i % 4) * 2)) & (uint8)0x03;
 		}
 		else if constexpr (Bits == 4)
 		{
-			return (ptr[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
+			return (data()[i / 2] >> (uint8)((i % 2) * 4)) & (uint8)0x0F;
 		}
 		abort();
 	}
@@ -71,17 +69,17 @@ public:
 	{
 		if constexpr (Bits == 1)
 		{
-			auto& byte = ptr[i / 8]; auto shift = (uint8)(i % 8);
+			auto& byte = data()[i / 8]; auto shift = (uint8)(i % 8);
 			byte = (byte & ~((uint8)0x01 << shift)) | ((value & (uint8)0x01) << shift);
 		}
 		else if constexpr (Bits == 2)
 		{
-			auto& byte = ptr[i / 4]; auto shift = (uint8)((i % 4) * 2);
+			auto& byte = data()[i / 4]; auto shift = (uint8)((i % 4) * 2);
 			byte = (byte & ~((uint8)0x03 << shift)) | ((value & (uint8)0x03) << shift);
 		}
 		else if constexpr (Bits == 4)
 		{
-			auto& byte = ptr[i / 2]; auto shift = (uint8)((i % 2) * 4);
+			auto& byte = data()[i / 2]; auto shift = (uint8)((i % 2) * 4);
 			byte = (byte & ~((uint8)0x0F << shift)) | ((value & (uint8)0x0F) << shift);
 		}
 	}
@@ -104,7 +102,6 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
-		ptr = data();
 	}
 };
 
-- 
2.43.0


From e319779d26f6773b49af6ac20563db60b88446ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 38/62] fix: PackedVector bounds assertion of four bit elements

---
 include/math/packed-vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index 9fc0d58..f3958e5 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -61,7 +61,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		return unsafeGet(i);
 	}
 
@@ -90,7 +90,7 @@ public:
 		else if constexpr (Bits == 2)
 			assert(i / 4 < size());
 		else if constexpr (Bits == 4)
-			assert(i / 8 < size());
+			assert(i / 2 < size());
 		unsafeSet(i, value);
 	}
 
-- 
2.43.0


From 0a26fba94f6590aa3f86bf9104de12d9cf59016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 39/62] fix: PackedVector::resize() brought back elements
 dropped by an earlier resize

---
 include/math/packed-vector.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/math/packed-vector.hpp b/include/math/packed-vector.hpp
index f3958e5..03b6b99 100644
--- a/include/math/packed-vector.hpp
+++ b/include/math/packed-vector.hpp
@@ -102,6 +102,11 @@ public:
 			std::vector<uint8>::resize(elementCount / 4 + (elementCount % 4 != 0 ? 1 : 0));
 		else if constexpr (Bits == 4)
 			std::vector<uint8>::resize(elementCount / 2 + (elementCount % 2 != 0 ? 1 : 0));
+
+		// Clears unused bits of the last byte, so the elements added by the next resize are zero.
+		auto usedBits = (uint8)((elementCount % (8 / Bits)) * Bits);
+		if (usedBits != 0)
+			back() &= (uint8)((1u << usedBits) - 1u);
 	}
 };
 
-- 
2.43.0


From eb2517e36f19080d08cc4e368c8b338f068447b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 40/62] fix: toHex() shifted by more than the value width for
 long texts

---
 include/math/hex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/hex.hpp b/include/math/hex.hpp
index 807e764..0c290ab 100644
--- a/include/math/hex.hpp
+++ b/include/math/hex.hpp
@@ -34,7 +34,7 @@ static string toHex(T value, psize length = sizeof(T) << 1) noexcept
 	constexpr const char* digits = "0123456789ABCDEF";
 	string hex(length, '0');
 	for (psize i = 0, j = (length - 1) * 4; i < length; i++, j -= 4)
-		hex[i] = digits[(value >> j) & 0x0f];
+		hex[i] = digits[j < 64 ? ((uint64)value >> j) & 0x0f : 0];
 	return hex;
 }
 
-- 
2.43.0


From ce0fedbb1d91fe0bd94b94df8aa30c5e777b5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 41/62] fix: Color channel setters truncated instead of
 rounding like the constructors

---
 include/math/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/color.hpp b/include/math/color.hpp
index 1ce9c58..842c8c5 100644
--- a/include/math/color.hpp
+++ b/include/math/color.hpp
@@ -147,19 +147,19 @@ struct [[nodiscard]] Color
 	/**
 	 * @brief Sets sRGB color normalizer R channel. (Red)
 	 */
-	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormR(float r) noexcept { this->r = std::clamp(r, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer G channel. (Green)
 	 */
-	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormG(float g) noexcept { this->g = std::clamp(g, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer B channel. (Blue)
 	 */
-	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormB(float b) noexcept { this->b = std::clamp(b, 0.0f, 1.0f) * 255.0f + 0.5f; }
 	/**
 	 * @brief Sets sRGB color normalizer A channel. (Alpha)
 	 */
-	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f; }
+	constexpr void setNormA(float a) noexcept { this->a = std::clamp(a, 0.0f, 1.0f) * 255.0f + 0.5f; }
 
 	/*******************************************************************************************************************
 	 * @brief Converts sRGB color to the string. (Space separated)
-- 
2.43.0


From 1a9f8d6a4066717f00f1c32470090902b344df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 42/62] fix: calcMipCount() of sizes rounded up to the next
 power of two by float

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index efb52a5..8f5b4d7 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -903,7 +903,7 @@ static u32x4 clamp(u32x4 v, u32x4 min, u32x4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount3(u32x4 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)max3(size)))) + 1u;
+	return calcMipCount(max3(size));
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index cba2dbf..713459e 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -903,15 +903,18 @@ static constexpr uint4 clamp(uint4 v, uint4 min, uint4 max) noexcept
 //**********************************************************************************************************************
 static uint8 calcMipCount(uint32 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)size))) + 1u;
+	uint8 count = 1;
+	while (size >>= 1u)
+		count++;
+	return count;
 }
 static uint8 calcMipCount(uint2 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(size.x, size.y)))) + 1u;
+	return calcMipCount(std::max(size.x, size.y));
 }
 static uint8 calcMipCount(uint3 size) noexcept
 {
-	return (uint8)(std::floor(std::log2((float)std::max(std::max(size.x, size.y), size.z)))) + 1u;
+	return calcMipCount(std::max(std::max(size.x, size.y), size.z));
 }
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
-- 
2.43.0


From df3928e2cd20ba82382084f19d13647c0323392d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 43/62] fix: calcSizeAtMip() divided by zero for mip levels
 past the end of the chain

---
 include/math/simd/vector/uint.hpp | 2 +-
 include/math/vector/uint.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/simd/vector/uint.hpp b/include/math/simd/vector/uint.hpp
index 8f5b4d7..fef5fc6 100644
--- a/include/math/simd/vector/uint.hpp
+++ b/include/math/simd/vector/uint.hpp
@@ -907,7 +907,7 @@ static uint8 calcMipCount3(u32x4 size) noexcept
 }
 static u32x4 calcSizeAtMip3(u32x4 sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), u32x4(1u));
+	return max(mip < 32u ? sizeAt0 >> (uint32)mip : u32x4::zero, u32x4(1u));
 }
 
 } // namespace math
\ No newline at end of file
diff --git a/include/math/vector/uint.hpp b/include/math/vector/uint.hpp
index 713459e..f4717b8 100644
--- a/include/math/vector/uint.hpp
+++ b/include/math/vector/uint.hpp
@@ -919,15 +919,15 @@ static uint8 calcMipCount(uint3 size) noexcept
 
 static uint32 calcSizeAtMip(uint32 sizeAt0, uint8 mip) noexcept
 {
-	return std::max(sizeAt0 / (uint32)std::exp2((float)mip), 1u);
+	return std::max(mip < 32u ? sizeAt0 >> mip : 0u, 1u);
 }
 static uint2 calcSizeAtMip(uint2 sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), uint2(1u));
+	return uint2(calcSizeAtMip(sizeAt0.x, mip), calcSizeAtMip(sizeAt0.y, mip));
 }
 static uint3 calcSizeAtMip(const uint3& sizeAt0, uint8 mip) noexcept
 {
-	return max(sizeAt0 / (uint32)std::exp2((float)mip), uint3(1u));
+	return uint3(calcSizeAtMip(sizeAt0.x, mip), calcSizeAtMip(sizeAt0.y, mip), calcSizeAtMip(sizeAt0.z, mip));
 }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From 0bfb7be2b1729ab45a07346365071bbe897bea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 44/62] fix: importance sampled directions are not a number for
 almost smooth surfaces

---
 include/math/brdf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/brdf.hpp b/include/math/brdf.hpp
index 4559f92..18b6d34 100644
--- a/include/math/brdf.hpp
+++ b/include/math/brdf.hpp
@@ -84,7 +84,7 @@ static f32x4 importanceSamplingNdfDggx(float2 u, float a) noexcept
     auto phi = 2.0f * (float)M_PI * u.x;
     auto cosTheta2 = (1.0f - u.y) / (1.0f + (a + 1.0f) * ((a - 1.0f) * u.y));
     auto cosTheta = std::sqrt(cosTheta2);
-    auto sinTheta = std::sqrt(1.0f - cosTheta2);
+    auto sinTheta = std::sqrt(std::max(1.0f - cosTheta2, 0.0f));
     return f32x4(sinTheta * std::cos(phi), sinTheta * std::sin(phi), cosTheta);
 }
 
-- 
2.43.0


From aaa57d9354aaff39560c436df7b237d9cfa42d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 45/62] fix: linear band of spherical harmonics is rotated by a
 transposed matrix

---
 include/math/sh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 1e5a41b..33498c0 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -140,9 +140,9 @@ static void multiply(const float m[25], const float v[5], float r[5]) noexcept
 //**********************************************************************************************************************
 static float3 rotateSphericalHarmonicBand1(float3 band1, const float3x3& m) noexcept
 {
-	constexpr auto invA1TimesK = float3x3(0.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, -1.0f, 0.0f, 0.0f);
+	constexpr auto invA1TimesK = float3x3(0.0f, 0.0f, -1.0f, -1.0f, 0.0f, 0.0f, 0.0f, 1.0f, 0.0f);
     auto mn0 = m[0], mn1 = m[1], mn2 = m[2];
-	auto r1OverK = float3x3(-mn0.y, mn0.z, -mn0.x, -mn1.y, mn1.z, -mn1.x, -mn2.y, mn2.z, -mn2.x);
+	auto r1OverK = float3x3(-mn0.y, -mn1.y, -mn2.y, mn0.z, mn1.z, mn2.z, -mn0.x, -mn1.x, -mn2.x);
 	return r1OverK * (invA1TimesK * band1);
 }
 static void rotateSphericalHarmonicBand2(const float band2[5], const float3x3& m, float r[5]) noexcept
-- 
2.43.0


From bd15c5bc63e79642dae9231ef3fe067a0909c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 46/62] fix: RGB and XYZ conversion matrices are transposed

---
 include/math/color-space.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/math/color-space.hpp b/include/math/color-space.hpp
index 3086789..b8e57f7 100644
--- a/include/math/color-space.hpp
+++ b/include/math/color-space.hpp
@@ -58,9 +58,9 @@ static f32x4 rgbToXyz(f32x4 rgb) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		0.4124564f, 0.2126729f, 0.0193339f, 0.0f,
-		0.3575761f, 0.7151522f, 0.1191920f, 0.0f,
-		0.1804375f, 0.0721750f, 0.9503041f, 0.0f,
+		0.4124564f, 0.3575761f, 0.1804375f, 0.0f,
+		0.2126729f, 0.7151522f, 0.0721750f, 0.0f,
+		0.0193339f, 0.1191920f, 0.9503041f, 0.0f,
 		0.0f      , 0.0f      , 0.0f      , 0.0f
 	);
 	return multiply3x3(m, rgb);
@@ -73,9 +73,9 @@ static f32x4 xyzToRgb(f32x4 xyz) noexcept
 {
 	static const auto m = f32x4x4
 	(
-		 3.2404542f, -0.9692660f,  0.0556434f, 0.0f,
-		-1.5371385f,  1.8760108f, -0.2040259f, 0.0f,
-		-0.4985314f,  0.0415560f,  1.0572252f, 0.0f,
+		 3.2404542f, -1.5371385f, -0.4985314f, 0.0f,
+		-0.9692660f,  1.8760108f,  0.0415560f, 0.0f,
+		 0.0556434f, -0.2040259f,  1.0572252f, 0.0f,
 		 0.0f      ,  0.0f      ,  0.0f      , 0.0f
 	);
 	return multiply3x3(m, xyz);
-- 
2.43.0


From 47151f97259e3d944ba0bcfd04ecd6656a5102d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 47/62] fix: minimum of spherical harmonics is not a number for
 vertical or missing linear bands

---
 include/math/sh.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 33498c0..361ffb8 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -228,9 +228,12 @@ static float shmin(float shw[shCoeffCount]) noexcept
 		(float)( M_SQRT15 / (4.0 * M_SQRT_PI))
 	};
 
-	auto dir = normalize(float3(-shw[3], -shw[1], shw[2]));
+	auto dir = float3(-shw[3], -shw[1], shw[2]);
+	auto len = length(dir);
+	dir = len > 0.0f ? dir * (1.0f / len) : float3(0.0f, 0.0f, 1.0f);
 	auto zAxis = -dir;
-	auto xAxis = normalize(cross(zAxis, float3(0.0f, 1.0f, 0.0f)));
+	auto up = std::abs(dir.y) < 0.999f ? float3(0.0f, 1.0f, 0.0f) : float3(1.0f, 0.0f, 0.0f);
+	auto xAxis = normalize(cross(zAxis, up));
 	auto yAxis = cross(xAxis, zAxis);
 	auto m = transpose(float3x3(xAxis, yAxis, -zAxis));
 	rotateSh3Bands(shw, m, shw);
-- 
2.43.0


From da1f723cf9744ae4bd7bb24db2ade168d3ca3e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 48/62] fix: deringing accumulated windows over its search
 steps and always stopped at the first step

---
 include/math/sh.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/math/sh.hpp b/include/math/sh.hpp
index 361ffb8..f93f832 100644
--- a/include/math/sh.hpp
+++ b/include/math/sh.hpp
@@ -278,22 +278,21 @@ static void deringingSH(f32x4 sh[shCoeffCount]) noexcept
 
 	for (uint32 channel = 0; channel < 3; channel++)
 	{
-		for (uint32 i = 0; i < shCoeffCount; i++)
-			shw[i] = sh[i][channel];
-
 		float l = shBandCount;
 		float r = cutoff;
 
 		for (uint32 i = 0; i < 16 && l + 0.1f < r; i++)
 		{
 			float m = 0.5f * (l + r);
+			for (uint32 j = 0; j < shCoeffCount; j++)
+				shw[j] = sh[j][channel];
 			windowing(shw, m);
 			if (shmin(shw) < 0.0f)
 				r = m;
 			else
 				l = m;
-			cutoff = std::min(cutoff, l);
 		}
+		cutoff = std::min(cutoff, l);
 	}
 
 	for (int32 l = 0; l < shBandCount; l++)
-- 
2.43.0


From e3f42a9c948a82e82f0282a84902a476d8def40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 49/62] fix: closest point on zero size line is not a number

---
 include/math/line.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/math/line.hpp b/include/math/line.hpp
index 19df0c1..36c627e 100644
--- a/include/math/line.hpp
+++ b/include/math/line.hpp
@@ -81,7 +81,8 @@ struct [[nodiscard]] Line
 static f32x4 closestPoint(const Line& line, f32x4 point) noexcept
 {
 	auto a = line.start, d = line.getDirection(false);
-	auto t = dot3(point - a, d) / dot3(d, d);
+	auto dd = dot3(d, d);
+	auto t = dd > 0.0f ? dot3(point - a, d) / dd : 0.0f; // Line can be a single point.
 	return fma(d, f32x4(std::clamp(t, 0.0f, 1.0f)), a);
 }
 /**
@@ -94,7 +95,8 @@ static f32x4 closestPoint(const Line& line, f32x4 point) noexcept
 static f32x4 closestPoint(const Line& line, f32x4 point, float& t) noexcept
 {
 	auto a = line.start, d = line.getDirection(false);
-	t = dot3(point - a, d) / dot3(d, d);
+	auto dd = dot3(d, d);
+	t = dd > 0.0f ? dot3(point - a, d) / dd : 0.0f; // Line can be a single point.
 	return fma(d, f32x4(std::clamp(t, 0.0f, 1.0f)), a);
 }
 
-- 
2.43.0


From 88be32c64dd35cb145e8b6a51722f197a63e91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 50/62] fix: closest point on a sphere to its center is not a
 number

---
 include/math/sphere.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/math/sphere.hpp b/include/math/sphere.hpp
index af5e487..11665a6 100644
--- a/include/math/sphere.hpp
+++ b/include/math/sphere.hpp
@@ -93,7 +93,9 @@ static bool isInside(const Sphere& sphere, f32x4 point) noexcept
  */
 static f32x4 closestPoint(const Sphere& sphere, f32x4 point) noexcept
 {
-	auto sphereToPoint = normalize3(point - sphere.getPosition());
+	auto difference = point - sphere.getPosition();
+	auto isCenter = lengthSq3(difference) == 0.0f; // All sphere points are equally close.
+	auto sphereToPoint = isCenter ? f32x4::top : normalize3(difference);
 	return sphere.getPosition() + sphereToPoint * sphere.getRadius();
 }
 
-- 
2.43.0


From 1616455b0ad9235583dfa0a31fc9cb37614cb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:22 +0000
Subject: [PATCH 51/62] fix: translating a ray changes its direction

---
 include/math/ray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 1df6396..fee6d84 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -83,12 +83,12 @@ public:
 
 	Ray operator*(f32x4 v) const noexcept { return Ray(origin * v, direction * v); }
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
-	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction + v); }
-	Ray operator-(f32x4 v) const noexcept { return Ray(origin - v, direction - v); }
+	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction, false); }
+	Ray operator-(f32x4 v) const noexcept { return Ray(origin - v, direction, false); }
 	Ray& operator*=(f32x4 v) noexcept { direction *= v; origin *= v; return *this; }
 	Ray& operator/=(f32x4 v) noexcept { direction /= v; origin /= v; return *this; }
-	Ray& operator+=(f32x4 v) noexcept { direction += v; origin += v; return *this; }
-	Ray& operator-=(f32x4 v) noexcept { direction -= v; origin -= v; return *this; }
+	Ray& operator+=(f32x4 v) noexcept { origin += v; return *this; }
+	Ray& operator-=(f32x4 v) noexcept { origin -= v; return *this; }
 	bool operator==(const Ray& v) const noexcept { return !memcmp(this, &v, sizeof(Ray)); }
 	bool operator!=(const Ray& v) const noexcept { return memcmp(this, &v, sizeof(Ray)); }
 	
-- 
2.43.0


From 16534e4285460ba363f2e4be11c32bd1534ea499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 52/62] fix: SIMD remainder of negative numbers differs from
 the scalar one

---
 include/math/simd/vector/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/vector/float.hpp b/include/math/simd/vector/float.hpp
index 9c3d1e1..883d6bc 100644
--- a/include/math/simd/vector/float.hpp
+++ b/include/math/simd/vector/float.hpp
@@ -1186,7 +1186,7 @@ static bool isNormalized3(f32x4 v, float tolerance = 1.0e-6f) noexcept
  */
 static f32x4 mod(f32x4 n, f32x4 d) noexcept
 {
-    return n - floor(n / d) * d;
+    return n - trunc(n / d) * d;
 }
 
 /**
-- 
2.43.0


From 4af558407e149b86fb14bcf45fa5f7e16b6d438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 53/62] fix: closest point on a ray is wrong when its origin is
 far away

---
 include/math/ray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index fee6d84..cbb5f2f 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -110,9 +110,9 @@ inline const Ray Ray::front = Ray(f32x4::zero, f32x4(0.0f, 0.0f, 1.0f, 0.0f), fa
  */
 static f32x4 closestPoint(const Ray& ray, f32x4 point) noexcept
 {
-	auto a = ray.origin, b = ray.origin + ray.getDirection();
-	auto v = b - a; auto t = dot3(point - a, v) / dot3(v, v);
-	return fma(ray.getDirection(), f32x4(std::max(t, 0.0f)), a);
+	auto a = ray.origin, v = ray.getDirection();
+	auto t = dot3(point - a, v) / dot3(v, v);
+	return fma(v, f32x4(std::max(t, 0.0f)), a);
 }
 
 } // namespace math
\ No newline at end of file
-- 
2.43.0


From afba176609afcf68395ccb6afa31c0d20b986eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:29 +0000
Subject: [PATCH 54/62] fix: scaling a ray in place leaves its parallel axes
 mask stale

---
 include/math/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index cbb5f2f..7f8c450 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -85,8 +85,8 @@ public:
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
 	Ray operator+(f32x4 v) const noexcept { return Ray(origin + v, direction, false); }
 	Ray operator-(f32x4 v) const noexcept { return Ray(origin - v, direction, false); }
-	Ray& operator*=(f32x4 v) noexcept { direction *= v; origin *= v; return *this; }
-	Ray& operator/=(f32x4 v) noexcept { direction /= v; origin /= v; return *this; }
+	Ray& operator*=(f32x4 v) noexcept { setDirection(direction * v, false); origin *= v; return *this; }
+	Ray& operator/=(f32x4 v) noexcept { setDirection(direction / v, false); origin /= v; return *this; }
 	Ray& operator+=(f32x4 v) noexcept { origin += v; return *this; }
 	Ray& operator-=(f32x4 v) noexcept { origin -= v; return *this; }
 	bool operator==(const Ray& v) const noexcept { return !memcmp(this, &v, sizeof(Ray)); }
-- 
2.43.0


From 2bc4cdddce26bf847196b5738c8fa764425f42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:55 +0000
Subject: [PATCH 55/62] fix: closest point on a degenerate triangle can lie
 outside of it

---
 include/math/plane.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index 0204986..cc339b7 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -140,8 +140,9 @@ static f32x4 closestPoint(const Plane& plane, f32x4 point) noexcept
  */
 static f32x4 closestPoint(const Triangle& triangle, f32x4 point) noexcept
 {
-	auto p = closestPoint(Plane(triangle), point);
-	if (isInside(triangle, p))
+	auto plane = Plane(triangle);
+	auto p = closestPoint(plane, point);
+	if (length3(plane.getNormal()) > 0.0f && isInside(triangle, p)) // Triangle can be a line or a point.
 		return p;
 
 	auto ab = Line(triangle.p0, triangle.p1), bc = Line(triangle.p1, triangle.p2), ca = Line(triangle.p2, triangle.p0);
-- 
2.43.0


From 110885f380dfdfbc32503472bb05d991b77bbc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 56/62] fix: SIMD matrix from a scalar one reads it as if it
 were 16 byte aligned

---
 include/math/simd/matrix/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/math/simd/matrix/float.hpp b/include/math/simd/matrix/float.hpp
index 1bc07f8..0f36c61 100644
--- a/include/math/simd/matrix/float.hpp
+++ b/include/math/simd/matrix/float.hpp
@@ -77,7 +77,7 @@ struct [[nodiscard]] alignas(MATH_SIMD_VECTOR_ALIGNMENT) f32x4x4
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * @param[in] m target 4x4 matrix value
 	 */
-	explicit f32x4x4(const float4x4& m) noexcept { *this = *((const f32x4x4*)&m); }
+	explicit f32x4x4(const float4x4& m) noexcept : c0(m.c0), c1(m.c1), c2(m.c2), c3(m.c3) { }
 	/**
 	 * @brief Creates a new SIMD 32bit floating point 4x4 matrix structure. (float4x4)
 	 * 
-- 
2.43.0


From a7565398f92554e0a6302a5d56c1a147d99d6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 57/62] fix: equality of two boxes depends on their unused
 fourth lanes

---
 include/math/aabb.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/math/aabb.hpp b/include/math/aabb.hpp
index 9194c89..d296091 100644
--- a/include/math/aabb.hpp
+++ b/include/math/aabb.hpp
@@ -255,8 +255,12 @@ public:
 	Aabb& operator/=(f32x4 v) noexcept { min /= v; max /= v; return *this; }
 	Aabb& operator+=(f32x4 v) noexcept { min += v; max += v; return *this; }
 	Aabb& operator-=(f32x4 v) noexcept { min -= v; max -= v; return *this; }
-	bool operator==(const Aabb& v) const noexcept { return !memcmp(this, &v, sizeof(Aabb)); }
-	bool operator!=(const Aabb& v) const noexcept { return memcmp(this, &v, sizeof(Aabb)); }
+	bool operator==(const Aabb& v) const noexcept
+	{
+		return f32x4(min, 0.0f) == f32x4(v.min, 0.0f) && 
+			f32x4(max, 0.0f) == f32x4(v.max, 0.0f);
+	}
+	bool operator!=(const Aabb& v) const noexcept { return !(*this == v); }
 	
 	static const Aabb zero, one, two, half, full, inf;
 };
-- 
2.43.0


From 7ef43b962a031c2070dd8981637ad04766de9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 58/62] fix: equality of two lines or triangles depends on
 their unused fourth lanes

---
 include/math/line.hpp     | 8 ++++++--
 include/math/triangle.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/math/line.hpp b/include/math/line.hpp
index 36c627e..0bb48f0 100644
--- a/include/math/line.hpp
+++ b/include/math/line.hpp
@@ -68,8 +68,12 @@ struct [[nodiscard]] Line
 	Line& operator/=(f32x4 v) noexcept { start /= v; end /= v; return *this; }
 	Line& operator+=(f32x4 v) noexcept { start += v; end += v; return *this; }
 	Line& operator-=(f32x4 v) noexcept { start -= v; end -= v; return *this; }
-	bool operator==(const Line& v) const noexcept { return !memcmp(this, &v, sizeof(Line)); }
-	bool operator!=(const Line& v) const noexcept { return memcmp(this, &v, sizeof(Line)); }
+	bool operator==(const Line& v) const noexcept
+	{
+		return f32x4(start, 0.0f) == f32x4(v.start, 0.0f) && 
+			f32x4(end, 0.0f) == f32x4(v.end, 0.0f);
+	}
+	bool operator!=(const Line& v) const noexcept { return !(*this == v); }
 };
 
 /**
diff --git a/include/math/triangle.hpp b/include/math/triangle.hpp
index d5e1fc6..d57f599 100644
--- a/include/math/triangle.hpp
+++ b/include/math/triangle.hpp
@@ -60,8 +60,12 @@ struct [[nodiscard]] Triangle
 	Triangle& operator/=(f32x4 v) noexcept { p0 /= v; p1 /= v; p2 /= v; return *this; }
 	Triangle& operator+=(f32x4 v) noexcept { p0 += v; p1 += v; p2 += v; return *this; }
 	Triangle& operator-=(f32x4 v) noexcept { p0 -= v; p1 -= v; p2 -= v; return *this; }
-	bool operator==(const Triangle& v) const noexcept { return !memcmp(this, &v, sizeof(Triangle)); }
-	bool operator!=(const Triangle& v) const noexcept { return memcmp(this, &v, sizeof(Triangle)); }
+	bool operator==(const Triangle& v) const noexcept
+	{
+		return f32x4(p0, 0.0f) == f32x4(v.p0, 0.0f) && 
+			f32x4(p1, 0.0f) == f32x4(v.p1, 0.0f) && f32x4(p2, 0.0f) == f32x4(v.p2, 0.0f);
+	}
+	bool operator!=(const Triangle& v) const noexcept { return !(*this == v); }
 };
 
 /**
-- 
2.43.0


From 51fee13a8bbb8690636979c8df99d14b9ba37034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 59/62] fix: equality of two rays depends on their unused
 fourth lanes

---
 include/math/ray.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index 7f8c450..e68b345 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -89,8 +89,12 @@ public:
 	Ray& operator/=(f32x4 v) noexcept { setDirection(direction / v, false); origin /= v; return *this; }
 	Ray& operator+=(f32x4 v) noexcept { origin += v; return *this; }
 	Ray& operator-=(f32x4 v) noexcept { origin -= v; return *this; }
-	bool operator==(const Ray& v) const noexcept { return !memcmp(this, &v, sizeof(Ray)); }
-	bool operator!=(const Ray& v) const noexcept { return memcmp(this, &v, sizeof(Ray)); }
+	bool operator==(const Ray& v) const noexcept
+	{
+		return f32x4(origin, 0.0f) == f32x4(v.origin, 0.0f) && 
+			f32x4(direction, 0.0f) == f32x4(v.direction, 0.0f);
+	}
+	bool operator!=(const Ray& v) const noexcept { return !(*this == v); }
 	
 	static const Ray left, right, bottom, top, back, front;
 };
-- 
2.43.0


From e1e56e27d87195b9e135b71bff63961d531f8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 60/62] fix: parallel axes of a normalized ray depend on the
 length of the direction before

---
 include/math/ray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/math/ray.hpp b/include/math/ray.hpp
index e68b345..6b21091 100644
--- a/include/math/ray.hpp
+++ b/include/math/ray.hpp
@@ -68,7 +68,7 @@ public:
 	void setDirection(f32x4 direction, bool normalize = true) noexcept
 	{
 		this->direction = normalize ? normalize3(direction) : direction;
-		isParallel = abs(direction) <= f32x4(1.0e-20f);
+		isParallel = abs(this->direction) <= f32x4(1.0e-20f);
 	}
 
 	/**
@@ -79,7 +79,7 @@ public:
 	/**
 	 * @brief Normalizes ray direction vector.
 	 */
-	void normalize() noexcept { direction /= length3(direction);  }
+	void normalize() noexcept { setDirection(direction); }
 
 	Ray operator*(f32x4 v) const noexcept { return Ray(origin * v, direction * v); }
 	Ray operator/(f32x4 v) const noexcept { return Ray(origin / v, direction / v); }
-- 
2.43.0


From 0988ac63addcca946330e0f0751d56c4d70042e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 61/62] fix: scalar matrices with zeros of different sign are
 not equal

---
 include/math/matrix/float.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/math/matrix/float.hpp b/include/math/matrix/float.hpp
index 143124a..2f2b80f 100644
--- a/include/math/matrix/float.hpp
+++ b/include/math/matrix/float.hpp
@@ -118,12 +118,12 @@ struct [[nodiscard]] float2x2
 	 * @brief Returns true if matrices have the same values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator==(const float2x2& m) const noexcept { return memcmp(this, &m, sizeof(float2x2)) == 0; }
+	constexpr bool operator==(const float2x2& m) const noexcept { return c0 == m.c0 && c1 == m.c1; }
 	/**
 	 * @brief Returns true if matrices have different values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator!=(const float2x2& m) const noexcept { return memcmp(this, &m, sizeof(float2x2)) != 0; }
+	constexpr bool operator!=(const float2x2& m) const noexcept { return c0 != m.c0 || c1 != m.c1; }
 
 	static const float2x2 zero, one, minusOne, identity;
 };
@@ -235,12 +235,12 @@ struct [[nodiscard]] float3x3
 	 * @brief Returns true if matrices have the same values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator==(const float3x3& m) const noexcept { return memcmp(this, &m, sizeof(float3x3)) == 0; }
+	constexpr bool operator==(const float3x3& m) const noexcept { return c0 == m.c0 && c1 == m.c1 && c2 == m.c2; }
 	/**
 	 * @brief Returns true if matrices have different values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator!=(const float3x3& m) const noexcept { return memcmp(this, &m, sizeof(float3x3)) != 0; }
+	constexpr bool operator!=(const float3x3& m) const noexcept { return c0 != m.c0 || c1 != m.c1 || c2 != m.c2; }
 
 	static const float3x3 zero, one, minusOne, identity;
 };
@@ -344,12 +344,12 @@ struct [[nodiscard]] float4x3
 	 * @brief Returns true if matrices have the same values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator==(const float4x3& m) const noexcept { return memcmp(this, &m, sizeof(float4x3)) == 0; }
+	constexpr bool operator==(const float4x3& m) const noexcept { return c0 == m.c0 && c1 == m.c1 && c2 == m.c2 && c3 == m.c3; }
 	/**
 	 * @brief Returns true if matrices have different values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator!=(const float4x3& m) const noexcept { return memcmp(this, &m, sizeof(float4x3)) != 0; }
+	constexpr bool operator!=(const float4x3& m) const noexcept { return c0 != m.c0 || c1 != m.c1 || c2 != m.c2 || c3 != m.c3; }
 
 	static const float4x3 zero, one, minusOne, identity;
 };
@@ -497,12 +497,12 @@ struct [[nodiscard]] float4x4
 	 * @brief Returns true if matrices have the same values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator==(const float4x4& m) const noexcept { return memcmp(this, &m, sizeof(float4x4)) == 0; }
+	constexpr bool operator==(const float4x4& m) const noexcept { return c0 == m.c0 && c1 == m.c1 && c2 == m.c2 && c3 == m.c3; }
 	/**
 	 * @brief Returns true if matrices have different values.
 	 * @param[in] m another matrix to compare with
 	 */
-	bool operator!=(const float4x4& m) const noexcept { return memcmp(this, &m, sizeof(float4x4)) != 0; }
+	constexpr bool operator!=(const float4x4& m) const noexcept { return c0 != m.c0 || c1 != m.c1 || c2 != m.c2 || c3 != m.c3; }
 
 	/**
 	 * @brief Model matrix without any transformations.
-- 
2.43.0


From f3ef71b5e582651110a679d7ba79d5d8a3256a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:03 +0000
Subject: [PATCH 62/62] fix: planes or spheres with zeros of different sign are
 not equal

---
 include/math/plane.hpp  | 4 ++--
 include/math/sphere.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/math/plane.hpp b/include/math/plane.hpp
index cc339b7..3b872f3 100644
--- a/include/math/plane.hpp
+++ b/include/math/plane.hpp
@@ -98,8 +98,8 @@ public:
 	 */
 	void normalize() noexcept { normDist /= length3(normDist); }
 
-	bool operator==(const Plane& v) const noexcept { return !memcmp(this, &v, sizeof(Plane)); }
-	bool operator!=(const Plane& v) const noexcept { return memcmp(this, &v, sizeof(Plane)); }
+	bool operator==(const Plane& v) const noexcept { return normDist == v.normDist; }
+	bool operator!=(const Plane& v) const noexcept { return normDist != v.normDist; }
 
 	static const Plane left, right, bottom, top, back, front;
 };
diff --git a/include/math/sphere.hpp b/include/math/sphere.hpp
index 11665a6..799f59e 100644
--- a/include/math/sphere.hpp
+++ b/include/math/sphere.hpp
@@ -62,8 +62,8 @@ public:
 	 */
 	void setPosition(f32x4 position) noexcept { posRad = f32x4(position, posRad.getW()); }
 
-	bool operator==(const Sphere& v) const noexcept { return !memcmp(this, &v, sizeof(Sphere)); }
-	bool operator!=(const Sphere& v) const noexcept { return memcmp(this, &v, sizeof(Sphere)); }
+	bool operator==(const Sphere& v) const noexcept { return posRad == v.posRad; }
+	bool operator!=(const Sphere& v) const noexcept { return posRad != v.posRad; }
 
 	static const Sphere one, two, half;
 };
-- 
2.43.0

