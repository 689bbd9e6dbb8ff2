From 1ced9126c2191a73adb9bbbe96e7fe8730832e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:03 +0000
Subject: [PATCH 01/50] fix: full circle when the longitude bounds are 360 and
 0

A lower bound of 360 degrees (e.g. "0 E" on a prograde body) and an upper
bound of 0 are the same meridian, but produced a map of zero extent.
---
 lib/marc/SimpleCylindrical.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 2a230d8..8b5c30e 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -86,9 +86,10 @@ MaRC::SimpleCylindrical::SimpleCylindrical(
     constexpr int epsilons = 2;
     if (this->lo_lon_ > this->hi_lon_)
         this->lo_lon_ -= C::_2pi;
-    else if (MaRC::almost_equal(this->lo_lon_, this->hi_lon_, ulps)
-             || (MaRC::almost_zero(this->lo_lon_, epsilons)
-                 && MaRC::almost_zero(this->hi_lon_, epsilons))) {
+
+    if (MaRC::almost_equal(this->lo_lon_, this->hi_lon_, ulps)
+        || (MaRC::almost_zero(this->lo_lon_, epsilons)
+            && MaRC::almost_zero(this->hi_lon_, epsilons))) {
         this->hi_lon_ += C::_2pi;
 
         MaRC::info("lower and upper map longitudes are the same");
-- 
2.43.0


From 3416df554cce641059c46b4025bbe05c1611a1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:50 +0000
Subject: [PATCH 02/50] fix: write the last plane of a map of a single pixel

CFITSIO numbers pixels from one, so the array is full only once the next
pixel to be written lies beyond its size.
---
 src/FITS_image_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FITS_image_t.cpp b/src/FITS_image_t.cpp
index c2d8d9c..36e9a37 100644
--- a/src/FITS_image_t.cpp
+++ b/src/FITS_image_t.cpp
@@ -91,7 +91,7 @@ template <typename T>
 bool
 MaRC::FITS::image::write(T const & img)
 {
-    if (this->fpixel_>= this->max_elements_) {
+    if (this->fpixel_ > this->max_elements_) {
         MaRC::error("FITS image array is already fully written.");
 
         return false;
-- 
2.43.0


From 3ede888544391fd6ede37e2e934a8e9cbd2f50fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:12 +0000
Subject: [PATCH 03/50] fix: let the bracketed root finder converge whenever a
 root is bracketed

Rounding errors in the numerical derivative could keep Newton-Raphson
from converging, or yield 0/0, within the iteration limit, so that e.g.
polar stereographic maps of strongly oblate bodies failed.  Fall back to
bisection after a few iterations, stop when the bracket cannot shrink and
when the root was hit exactly.
---
 lib/marc/root_find.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/marc/root_find.cpp b/lib/marc/root_find.cpp
index 0bef16f..790b7f8 100644
--- a/lib/marc/root_find.cpp
+++ b/lib/marc/root_find.cpp
@@ -231,17 +231,30 @@ MaRC::root_find(double y,
 
     constexpr int max_iterations = 100;
 
+    // Rounding errors in the numerical derivative may keep
+    // Newton-Raphson from ever converging.  Bisection always does.
+    constexpr int max_newton_iterations = 20;
+
     for (int i = 0; i < max_iterations; ++i) {
+        if (y0 == y)
+            return x0;
+
         double const df = first_derivative(x0, f);
 
         // Bisect if Newtown-Raphson is out of range or not
         // decreasing fast enough.
-        if (((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
+        if (i >= max_newton_iterations
+            || std::isnan(df)
+            || ((x0 - xh) * df - y0 + y) * ((x0 - xl) * df - y0 + y) > 0
             || std::abs(2 * (y0 - y)) > std::abs(dxold * df)){
             dxold = dx;
             dx = (xh - xl) / 2;
             x0 = xl + dx;
 
+            // No number lies between the bracket end points.
+            if (x0 == xl || x0 == xh)
+                return x0;
+
             // MaRC::debug("{:>8}: (dx, xl, x0) = ({}, {}, {})",
             //             i, dx, xl, x0);
         } else {
-- 
2.43.0


From d2636ebd572fa6b95965fc652b669a5b43efdd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:03 +0000
Subject: [PATCH 04/50] fix: intersect the line of sight with the ellipsoid in
 orthographic maps

The linear coefficient had the sign of the opposite rotation about the X
axis, so for oblate bodies seen from off the equator the point found did
not lie on the body.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index f660d5c..c7af384 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -348,7 +348,7 @@ MaRC::Orthographic::plot_map(std::size_t samples,
             }
 
             double const CB =
-                diff * zz * std::sin(2 * this->sub_observ_lat_);
+                -diff * zz * std::sin(2 * this->sub_observ_lat_);
             double const CC =
                 a2 * zz * zz + c2 * x * x - a2 * c2 - diff *
                 zz * zz * std::pow(std::sin(this->sub_observ_lat_), 2);
-- 
2.43.0


From 16b809086a7aa6d88806be817e5cc882b544916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:20 +0000
Subject: [PATCH 05/50] fix: apply the data range to physical values instead of
 converted ones

The range was converted to the map's data type first: fractions of an
integer map's limits were lost, a float limit could exclude the very value
given, and the largest 64 bit integer overflowed so that 64 bit maps of
images came out empty.
---
 lib/marc/MapFactory.h     | 13 ++++++++-----
 lib/marc/MapFactory_t.cpp | 30 +++++++++++++++++++++++-------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/lib/marc/MapFactory.h b/lib/marc/MapFactory.h
index df01883..97400ed 100644
--- a/lib/marc/MapFactory.h
+++ b/lib/marc/MapFactory.h
@@ -111,7 +111,7 @@ namespace MaRC
          */
         template <typename T>
         map_type<T> make_map(SourceImage const & image,
-                             extrema<T> const & minmax,
+                             extrema<double> const & minmax,
                              plot_info<T> & info) const;
 
         /**
@@ -171,7 +171,7 @@ namespace MaRC
              * @param[in,out] map    Map image container.
              */
             parameters(SourceImage const & source,
-                       extrema<T> const & minmax,
+                       extrema<double> const & minmax,
                        plot_info<T> & info,
                        map_type<T> & map)
                 : source_(source)
@@ -204,13 +204,16 @@ namespace MaRC
              * @c extrema<> will contain a minimum set to
              * @c std::numeric_limits<T>::lowest().  Similarly, the
              * maximum will be set to @c std::numeric_limits<T>::max()
-             * if @a e.maximum() is not set.
+             * if @a e.maximum() is not set.  The physical values are
+             * not rounded to the map data type, but never exceed what
+             * that data type can hold.
              *
              * @param[in] e User-specified min/max map data values.
              *
              * @return Suitably initialized extrema.
              */
-            MaRC::extrema<T> get_extrema(extrema<T> const & e);
+            static extrema<double> get_extrema(
+                extrema<double> const & e);
 
         private:
 
@@ -218,7 +221,7 @@ namespace MaRC
             SourceImage const & source_;
 
             /// User-specified allowed min/max map data values.
-            extrema<T> const minmax_;
+            extrema<double> const minmax_;
 
             /// Map plotting information.
             plot_info<T> & info_;
diff --git a/lib/marc/MapFactory_t.cpp b/lib/marc/MapFactory_t.cpp
index f2aa400..3e2f667 100644
--- a/lib/marc/MapFactory_t.cpp
+++ b/lib/marc/MapFactory_t.cpp
@@ -16,30 +16,46 @@
 #include "marc/SourceImage.h"
 #include "marc/plot_info.h"
 
+#include <algorithm>
+#include <cmath>
 #include <type_traits>
 #include <limits>
 #include <stdexcept>
 
 
 template <typename T>
-MaRC::extrema<T>
-MaRC::MapFactory::parameters<T>::get_extrema(extrema<T> const & e)
+MaRC::extrema<double>
+MaRC::MapFactory::parameters<T>::get_extrema(extrema<double> const & e)
 {
     auto const & minimum = e.minimum();
     auto const & maximum = e.maximum();
 
-    extrema<T> ex(minimum ? *minimum : std::numeric_limits<T>::lowest(),
-                  maximum ? *maximum : std::numeric_limits<T>::max());
+    if (minimum && maximum && *minimum > *maximum)
+        throw std::invalid_argument("Minimum map data value is greater "
+                                    "than maximum.");
+
+    constexpr double type_min = std::numeric_limits<T>::lowest();
+    constexpr double type_max =
+        static_cast<double>(std::numeric_limits<T>::max());
+
+    // The conversion above may have rounded the largest integer up to a
+    // value that does not fit within the map data type.
+    constexpr bool rounded =
+        std::numeric_limits<T>::digits > std::numeric_limits<double>::digits;
+
+    double const largest = rounded ? std::nextafter(type_max, 0) : type_max;
+
+    extrema<double> ex;
+    ex.minimum(minimum ? std::max(*minimum, type_min) : type_min);
+    ex.maximum(maximum ? std::min(*maximum, largest) : largest);
 
     return ex;
 }
 
-// -----------------------------------------------------------------------
-
 template <typename T>
 MaRC::MapFactory::map_type<T>
 MaRC::MapFactory::make_map(SourceImage const & image,
-                           extrema<T> const & minmax,
+                           extrema<double> const & minmax,
                            plot_info<T> & info) const
 {
     // Set up blank value for the map.
-- 
2.43.0


From 2324064a3f57f963289febdfc316342019f0a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:06 +0000
Subject: [PATCH 06/50] fix: apply the user's data range to computed planes in
 physical units

In integer maps the computed data is scaled, but the range given by the user
was compared with the scaled data as is.
---
 src/CosPhaseImageFactory.cpp  |  8 ++++----
 src/LatitudeImageFactory.cpp  |  8 ++++----
 src/LongitudeImageFactory.cpp |  8 ++++----
 src/Mu0ImageFactory.cpp       |  8 ++++----
 src/MuImageFactory.cpp        |  8 ++++----
 src/SourceImageFactory.cpp    | 14 ++++++++++++++
 src/SourceImageFactory.h      | 13 +++++++++++++
 7 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/CosPhaseImageFactory.cpp b/src/CosPhaseImageFactory.cpp
index 111e9f4..5f9b7ac 100644
--- a/src/CosPhaseImageFactory.cpp
+++ b/src/CosPhaseImageFactory.cpp
@@ -72,11 +72,11 @@ MaRC::CosPhaseImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum to match the physical data scaling.
     */
-    this->minimum(cos_phase_low  * scale + offset);
-    this->maximum(cos_phase_high * scale + offset);
+    this->minimum(cos_phase_low);
+    this->maximum(cos_phase_high);
+    this->scale_extrema(scale, offset);
 
     return std::make_unique<MaRC::CosPhaseImage>(this->body_,
                                                  this->sub_observ_lat_,
diff --git a/src/LatitudeImageFactory.cpp b/src/LatitudeImageFactory.cpp
index 191a2f2..d7d132d 100644
--- a/src/LatitudeImageFactory.cpp
+++ b/src/LatitudeImageFactory.cpp
@@ -72,11 +72,11 @@ MaRC::LatitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum to match the physical data scaling.
     */
-    this->minimum(latitude_low  * scale + offset);
-    this->maximum(latitude_high * scale + offset);
+    this->minimum(latitude_low);
+    this->maximum(latitude_high);
+    this->scale_extrema(scale, offset);
 
     return
         std::make_unique<MaRC::LatitudeImage>(this->body_,
diff --git a/src/LongitudeImageFactory.cpp b/src/LongitudeImageFactory.cpp
index ebb9e4a..eadf0f2 100644
--- a/src/LongitudeImageFactory.cpp
+++ b/src/LongitudeImageFactory.cpp
@@ -75,11 +75,11 @@ MaRC::LongitudeImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum to match the physical data scaling.
     */
-    this->minimum(longitude_low  * scale + offset);
-    this->maximum(longitude_high * scale + offset);
+    this->minimum(longitude_low);
+    this->maximum(longitude_high);
+    this->scale_extrema(scale, offset);
 
     return std::make_unique<MaRC::LongitudeImage>(scale, offset);
 }
diff --git a/src/Mu0ImageFactory.cpp b/src/Mu0ImageFactory.cpp
index bd149d6..19095c6 100644
--- a/src/Mu0ImageFactory.cpp
+++ b/src/Mu0ImageFactory.cpp
@@ -65,11 +65,11 @@ MaRC::Mu0ImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum to match the physical data scaling.
     */
-    this->minimum(mu0_low  * scale + offset);
-    this->maximum(mu0_high * scale + offset);
+    this->minimum(mu0_low);
+    this->maximum(mu0_high);
+    this->scale_extrema(scale, offset);
 
     return std::make_unique<MaRC::Mu0Image>(this->body_,
                                             this->sub_solar_lat_,
diff --git a/src/MuImageFactory.cpp b/src/MuImageFactory.cpp
index 16d7670..47b271a 100644
--- a/src/MuImageFactory.cpp
+++ b/src/MuImageFactory.cpp
@@ -67,11 +67,11 @@ MaRC::MuImageFactory::make(scale_offset_functor calc_so)
     /*
       Set physical data extrema if not previously set.
 
-      Scale the default minimum and maximum to match the physical data
-      scaling.
+      Scale the minimum and maximum to match the physical data scaling.
     */
-    this->minimum(mu_low  * scale + offset);
-    this->maximum(mu_high * scale + offset);
+    this->minimum(mu_low);
+    this->maximum(mu_high);
+    this->scale_extrema(scale, offset);
 
     return std::make_unique<MaRC::MuImage>(this->body_,
                                            this->sub_observ_lat_,
diff --git a/src/SourceImageFactory.cpp b/src/SourceImageFactory.cpp
index 4b7601c..6c8e6e5 100644
--- a/src/SourceImageFactory.cpp
+++ b/src/SourceImageFactory.cpp
@@ -26,3 +26,17 @@ MaRC::SourceImageFactory::maximum(double datum)
     if (!this->extrema_.maximum())
         this->extrema_.maximum(datum);
 }
+
+void
+MaRC::SourceImageFactory::scale_extrema(double scale, double offset)
+{
+    extrema_type scaled;
+
+    if (this->extrema_.minimum())
+        scaled.minimum(*this->extrema_.minimum() * scale + offset);
+
+    if (this->extrema_.maximum())
+        scaled.maximum(*this->extrema_.maximum() * scale + offset);
+
+    this->extrema_ = scaled;
+}
diff --git a/src/SourceImageFactory.h b/src/SourceImageFactory.h
index 551d5ab..f6e09ed 100644
--- a/src/SourceImageFactory.h
+++ b/src/SourceImageFactory.h
@@ -130,6 +130,19 @@ namespace MaRC
          */
         extrema_type const & minmax() const { return this->extrema_; }
 
+    protected:
+
+        /**
+         * @brief Scale the minimum and maximum physical data values.
+         *
+         * Scale the minimum and maximum to match the data of a source
+         * image that is itself scaled.
+         *
+         * @param[in] scale  Physical data scale.
+         * @param[in] offset Physical data offset.
+         */
+        void scale_extrema(double scale, double offset);
+
     private:
 
         /**
-- 
2.43.0


From 53dd2710052728face94c76f0e03d5be56cfc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:51 +0000
Subject: [PATCH 07/50] fix: record tiny plane scales in the map history
 instead of zero

The scale of computed planes in 64 bit integer maps is smaller than epsilon
and was written as 0 for maps with several planes.
---
 src/MapCommand.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index f86fa5c..ba05d8e 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -51,8 +51,7 @@ namespace
             fits_width < double_width ? fits_width : double_width;
 
         // Avoid writing "-0".  It's harmless but rather unsightly.
-        constexpr int epsilons = 1;
-        if (MaRC::almost_zero(value, epsilons))
+        if (value == 0)
             value = 0;
 
         // Work around inability to change precision in
-- 
2.43.0


From 721a723d46401faef28fcaaad376a08d6cc3e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 08/50] fix: warn about every plane without data, not only the
 first ones

The warning was only given until some plane of the map had data.
---
 lib/marc/plot_info.h | 12 +++++++++++-
 src/MapCommand_t.cpp |  3 ++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/marc/plot_info.h b/lib/marc/plot_info.h
index 90d8cee..4e5629f 100644
--- a/lib/marc/plot_info.h
+++ b/lib/marc/plot_info.h
@@ -130,7 +130,14 @@ namespace MaRC
          *
          * @param[in] datum Physical data value.
          */
-        void update_extrema(T datum) { this->extrema_.update(datum); }
+        void update_extrema(T datum)
+        {
+            this->extrema_.update(datum);
+            ++this->data_count_;
+        }
+
+        /// Get number of data plotted so far, over all map planes.
+        auto data_count() const { return this->data_count_; }
 
         // Was data plotted to the map?
         bool data_mapped() const { return this->extrema_.is_valid(); }
@@ -159,6 +166,9 @@ namespace MaRC
         /// Minimum and maximum values of mapped physical data.
         extrema<T> extrema_;
 
+        /// Number of data plotted to the map.
+        std::size_t data_count_ = 0;
+
         /**
          * @brief  Value of pixels with undefined physical value.
          *
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index bd5f819..e27a23a 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -158,12 +158,13 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
                                         image.get());
 
         // Create the map plane.
+        auto const previously_mapped = info.data_count();
         auto map =
             this->factory_->template make_map<T>(*image,
                                                  i->minmax(),
                                                  info);
 
-        if (!info.data_mapped())
+        if (info.data_count() == previously_mapped)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-- 
2.43.0


From b100f43139ce130726e41edf719d313c9934051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:08 +0000
Subject: [PATCH 09/50] fix: do not let an invalid datum of one image hide
 those of later images

PhotoImage::read_data() overwrote the caller's value when it failed and
refused to read anything once that value was not a number, so that a mosaic
lost data of images listed after one with an invalid pixel.
---
 lib/marc/PhotoImage.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9e0b53a..9a954dd 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -144,23 +144,25 @@ MaRC::PhotoImage::read_data(double lat,
         || i >= this->right_
         || k <  this->top_
         || k >= this->bottom_
-        || (!this->body_mask_.empty() && !this->body_mask_[index])
-        || std::isnan(data))
+        || (!this->body_mask_.empty() && !this->body_mask_[index]))
         return false;
 
-    data = this->image_[index];
+    // Only touch the caller's value once valid data was found.
+    double datum = this->image_[index];
 
     if (!config->interpolation_strategy()->interpolate(
             this->image_.data(),
             x,
             z,
-            data)
+            datum)
         || !config->photometric_correction()->correct(*this->geometry_,
-                                                      data)
-        || std::isnan(data)) {
+                                                      datum)
+        || std::isnan(datum)) {
         return false;
     }
 
+    data = datum;
+
     // Scan across image for "off-planet/image" pixels and compute
     // data weight.
     if (scan)
-- 
2.43.0


From 2121ba711fd57819e778def636a94eb9256ec34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 10/50] fix: weigh image data by its distance to the closest
 edge or sky

With sky removal the scan for the sky started on the pixel itself and looked
for the body, making every weight zero, so that weighted averages were the
datum of the last image.  Pixels on the left and upper edge had zero weight
as well, unlike those on the right and lower one.
---
 lib/marc/PhotoImage.cpp | 97 +++++++++++++++++++----------------------
 lib/marc/PhotoImage.h   | 36 +++++++--------
 2 files changed, 60 insertions(+), 73 deletions(-)

diff --git a/lib/marc/PhotoImage.cpp b/lib/marc/PhotoImage.cpp
index 9a954dd..f80938e 100644
--- a/lib/marc/PhotoImage.cpp
+++ b/lib/marc/PhotoImage.cpp
@@ -172,58 +172,55 @@ MaRC::PhotoImage::read_data(double lat,
 }
 
 void
-MaRC::PhotoImage::scan_samples(std::size_t line,
-                               std::size_t left,
-                               std::size_t right,
+MaRC::PhotoImage::scan_samples(std::size_t i,
+                               std::size_t k,
                                double & weight) const
 {
-    // Scan across samples on given line.
+    // Scan across samples on line k, away from sample i.
 
-    auto const offset    = line * this->samples_;
-    auto       body_iter = std::cbegin(this->body_mask_) + offset;
+    auto const line = std::cbegin(this->body_mask_) + k * this->samples_;
 
-    // Search the half-open interval [left, right).
-    auto const begin  = body_iter + left;
-    auto const end    = body_iter + right;
-    auto const result = std::find(begin, end, true);
-
-    assert(begin <= result);
-
-    // The weight is the shortest distance.
-    if (result != end)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(
-                    std::distance(begin, result)),
-                weight);
+    // Search the half-open interval [left, i).
+    for (auto s = i; s > this->left_; --s) {
+        if (!line[s - 1]) {
+            weight = std::min(static_cast<double>(i - (s - 1)), weight);
+            break;
+        }
+    }
 
+    // Search the half-open interval [i, right).
+    for (auto s = i; s < this->right_; ++s) {
+        if (!line[s]) {
+            weight = std::min(static_cast<double>(s - i), weight);
+            break;
+        }
+    }
 }
 
 void
 MaRC::PhotoImage::scan_lines(std::size_t i,
-                             std::size_t top,
-                             std::size_t bottom,
+                             std::size_t k,
                              double & weight) const
 {
-    // Search the half-open interval [top, bottom).
-    auto body_iter =
-        std::cbegin(this->body_mask_) + (top * this->samples_) + i;
-
-    auto const first = top;
-    auto const last  = bottom;
-    auto       line = first;
-
-    for (; line < last && *body_iter; ++line)
-        std::advance(body_iter, this->samples_); // Sample i in next
-                                                 // line in mask.
-
-    if (line != last)
-        weight =
-            std::min(
-                static_cast<
-                std::remove_reference<decltype(weight)>::type>(line - first),
-                weight);
+    // Scan across lines at sample i, away from line k.
+
+    auto const sample = std::cbegin(this->body_mask_) + i;
+
+    // Search the half-open interval [top, k).
+    for (auto l = k; l > this->top_; --l) {
+        if (!sample[(l - 1) * this->samples_]) {
+            weight = std::min(static_cast<double>(k - (l - 1)), weight);
+            break;
+        }
+    }
+
+    // Search the half-open interval [k, bottom).
+    for (auto l = k; l < this->bottom_; ++l) {
+        if (!sample[l * this->samples_]) {
+            weight = std::min(static_cast<double>(l - k), weight);
+            break;
+        }
+    }
 }
 
 void
@@ -253,9 +250,9 @@ MaRC::PhotoImage::data_weight(std::size_t i,
 
     // The weight is the shortest distance.
     weight =
-        std::min(i,
+        std::min(i + 1,
                  std::min(this->samples_ - i,
-                          std::min(k,
+                          std::min(k + 1,
                                    this->lines_ - k)));
 
     // Scan across image for "off-body/image" pixels, giving less
@@ -265,19 +262,13 @@ MaRC::PhotoImage::data_weight(std::size_t i,
 
     // -----------------------------------------------------
 
-    // Scan across the half-open interval [left, i) on line k.
-    this->scan_samples(k, this->left_, i, weight);
-
-    // Scan across the half-open interval [i, right) on line k.
-    this->scan_samples(k, i, this->right_, weight);
+    // Scan across samples on line k.
+    this->scan_samples(i, k, weight);
 
     // -----------------------------------------------------
 
     // Line numbers increase from top to bottom.
 
-    // Scan across the half-open interval [top, k) on sample i.
-    this->scan_lines(i, this->top_, k, weight);
-
-    // Scan across the half-open interval [k, bottom) on sample i.
-    this->scan_lines(i, k, this->bottom_, weight);
+    // Scan across lines on sample i.
+    this->scan_lines(i, k, weight);
 }
diff --git a/lib/marc/PhotoImage.h b/lib/marc/PhotoImage.h
index b287dfa..f3ef164 100644
--- a/lib/marc/PhotoImage.h
+++ b/lib/marc/PhotoImage.h
@@ -131,35 +131,31 @@ namespace MaRC
         /**
          * @brief Scan across samples for the data weight.
          *
-         * Scan samples across the given line for the data weight in
-         * the half-open interval [left, right).
+         * Scan samples on line @a k in both directions for the
+         * closest sky.
          *
-         * @param[in]  line   Image line across which scan should
-         *                    occur.
-         * @param[in]  left   Sample at which scan should be started.
-         * @param[in]  right  Sample at which scan should be stopped.
-         * @param[out] weight Data weight for the given image line.
+         * @param[in]     i      Image sample from which to scan.
+         * @param[in]     k      Image line across which to scan.
+         * @param[in,out] weight Data weight, reduced to the distance
+         *                       of the closest sky, if less.
          */
-        void scan_samples(std::size_t line,
-                          std::size_t left,
-                          std::size_t right,
+        void scan_samples(std::size_t i,
+                          std::size_t k,
                           double & weight) const;
 
         /**
          * @brief Scan across lines for the data weight.
          *
-         * Scan lines across the given sample for the data weight in
-         * in the half-open interval [top, bottom).
+         * Scan lines at sample @a i in both directions for the
+         * closest sky.
          *
-         * @param[in]  sample Image sample across which scan should
-         *                    occur.
-         * @param[in]  top    Line at which scan should be started.
-         * @param[in]  bottom Line at which scan should be stopped.
-         * @param[out] weight Data weight for the given image sample.
+         * @param[in]     i      Image sample across which to scan.
+         * @param[in]     k      Image line from which to scan.
+         * @param[in,out] weight Data weight, reduced to the distance
+         *                       of the closest sky, if less.
          */
-        void scan_lines(std::size_t sample,
-                        std::size_t top,
-                        std::size_t bottom,
+        void scan_lines(std::size_t i,
+                        std::size_t k,
                         double & weight) const;
 
         /**
-- 
2.43.0


From 63cd5d42c6ee7e2b6c2dd09d64a7575a73c1a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:45 +0000
Subject: [PATCH 11/50] fix: refuse nibble values larger than the image

Unsigned wrap around made a nibble larger than the image look valid, and data
was read from outside of the image.
---
 lib/marc/PhotoImageParameters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/marc/PhotoImageParameters.cpp b/lib/marc/PhotoImageParameters.cpp
index 995fa95..2a4a39a 100644
--- a/lib/marc/PhotoImageParameters.cpp
+++ b/lib/marc/PhotoImageParameters.cpp
@@ -138,14 +138,17 @@ MaRC::PhotoImageParameters::validate_parameters(std::size_t samples,
                                                 std::size_t lines) const
 {
     // Run some sanity checks on nibbling values
-    if (samples - this->nibble_right_ <= this->nibble_left_) {
+    // Beware of unsigned integer wrap around.
+    if (this->nibble_right_ >= samples
+        || samples - this->nibble_right_ <= this->nibble_left_) {
         throw
             std::invalid_argument(
                 "Either the left or right (or both) "
                 "nibble value is too large.");
     }
 
-    if (lines - this->nibble_top_ <= this->nibble_bottom_) {
+    if (this->nibble_top_ >= lines
+        || lines - this->nibble_top_ <= this->nibble_bottom_) {
         throw
             std::invalid_argument(
                 "Either the top or bottom (or both) "
-- 
2.43.0


From 3672ffe30ad6674e3a141b01bb72702b05d1c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:53 +0000
Subject: [PATCH 12/50] fix: interpolate bilinearly between the four
 surrounding pixels

The average of four linear estimates, one of them using the wrong pixel, did
not reproduce linear data and could exceed the range of the pixels used.
---
 lib/marc/BilinearInterpolation.cpp | 47 +++++++++++++-----------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/lib/marc/BilinearInterpolation.cpp b/lib/marc/BilinearInterpolation.cpp
index 91226ed..fe09ae5 100644
--- a/lib/marc/BilinearInterpolation.cpp
+++ b/lib/marc/BilinearInterpolation.cpp
@@ -54,35 +54,28 @@ MaRC::BilinearInterpolation::interpolate(double const * data,
         || b < this->top_  || t >= this->bottom_)
         return false;
 
-    int count = 0;
-    double tmp = 0;
-
-    if (!std::isnan(data[ob + r]) && !std::isnan(data[ob + l])) {
-        // [0][0]
-        tmp += (data[ob + r] - data[ob + l]) * (x - l) + data[ob + l];
-
-        // [1][1] =
-        tmp += (data[ob + r] - data[ob + l]) * (z - b) + data[ob + r];
-
-        count += 2;
-    }
-
-    if (!std::isnan(data[ot + r]) && !std::isnan(data[ot + l])) {
-        // [0][1]
-        tmp += (data[ot + r] - data[ot + l]) * (x - l) + data[ot + l];
-
-        ++count;
-    }
-
-    if (!std::isnan(data[ot + l]) && !std::isnan(data[ob + l])) {
-        // [1][0]
-        tmp += (data[ot + l] - data[ob + l]) * (z - b) + data[ob + l];
-
-        ++count;
+    // Weight of each of the four surrounding pixels.
+    double const dx = x - l;
+    double const dz = z - b;
+
+    double const values[]  = { data[ob + l], data[ob + r],
+                               data[ot + l], data[ot + r] };
+    double const weights[] = { (1 - dx) * (1 - dz), dx * (1 - dz),
+                               (1 - dx) * dz,       dx * dz };
+
+    // Leave out invalid pixels.
+    double sum = 0;
+    double weight_sum = 0;
+
+    for (int n = 0; n < 4; ++n) {
+        if (!std::isnan(values[n])) {
+            sum        += weights[n] * values[n];
+            weight_sum += weights[n];
+        }
     }
 
-    if (count > 0) {
-        datum = tmp / count;
+    if (weight_sum > 0) {
+        datum = sum / weight_sum;
 
         return true;
     }
-- 
2.43.0


From eb29e485ec46105d92b0c88ff8e1218b9cc666b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 13/50] fix: point the camera at the latitude and longitude
 given as centre

The rotation about the body's axis was computed from the range vector, which
never has a component to turn away, so that the optical axis kept pointing at
the sub-observer meridian whenever LON_AT_CENTER was another one.
---
 lib/marc/ViewingGeometry.cpp | 76 ++++++------------------------------
 1 file changed, 12 insertions(+), 64 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index b44a761..709df88 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -494,7 +494,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
 
 // Get rotation matrices for case when lat/lon at optical axis were given
 void
-MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
+MaRC::ViewingGeometry::rot_matrices(DVector const & /* range_b */,
                                     DVector const & OA,
                                     DMatrix & observ2body,
                                     DMatrix & body2observ)
@@ -510,33 +510,17 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
     // magnitudes since they're both unit vectors (magnitudes of 1).
     double const dotProd = MaRC::dot_product(body_north, UnitOpticalAxis);
 
-    double SubLatMod[2];
+    // Angle between equatorial plane and optical axis.
+    double const SubLatMod = std::asin(-dotProd);
 
-    /**
-     * @todo Shouldn't this be @c (C::pi_2 @c - @c std::acos(dotProd)) ?
-     */
-    /*
-      Given cos(x):
-          asin(cos(x)) = x + pi/2
-          asin(-cos(x)) = -(x + pi/2)
-          x = pi/2 - asin(-cos(x))
-     */
-    // Try first possibility
-    SubLatMod[0] = std::asin(-dotProd);  // Angle between equatorial
-                                         // plane and OA.
-
-    DVector rotated;
-    Geometry::RotX(-SubLatMod[0], range_b, rotated);
-    DVector R_b = rotated;
-
-    double const Ztwist1 = std::atan2(R_b[0], -R_b[1]);
+    // Direction of the optical axis in the equatorial plane.
+    double const Ztwist = std::atan2(OA[0], OA[1]);
 
     // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist1)
-                * (Geometry::RotXMatrix(SubLatMod[0])
-                   * Geometry::RotYMatrix(-this->position_angle_)));
-
-    observ2body = o2b;
+    observ2body =
+        Geometry::RotZMatrix(Ztwist)
+        * (Geometry::RotXMatrix(SubLatMod)
+           * Geometry::RotYMatrix(-this->position_angle_));
 
     // OA_O is the optical axis vector in observer coordinates.
     DVector const OA_O(0,
@@ -546,43 +530,7 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                        OA.magnitude(),
                        0);
 
-    double diff_magnitude = (OA - o2b * OA_O).magnitude();
-
-    /**
-     * @todo This seems like a hack.  Why do we need to check a second
-     *       value?  There should only be one value with this approach
-     *       since.
-     */
-    // Try second possibility
-    SubLatMod[1] = C::pi - SubLatMod[0];
-    Geometry::RotX(-SubLatMod[1], range_b, rotated);
-    R_b = rotated;
-
-    double const Ztwist2 = std::atan2(R_b[0], -R_b[1]);
-
-    // Observer to body transformation
-    o2b =
-        Geometry::RotZMatrix(Ztwist2)
-        * (Geometry::RotXMatrix(SubLatMod[1])
-           * Geometry::RotYMatrix(-this->position_angle_));
-
-#ifndef NDEBUG
-    double Ztwist, SubLatModified;
-#endif  /* !NDEBUG */
-
-    double const diffmag = (OA - o2b * OA_O).magnitude();
-    if (diff_magnitude > diffmag) {
-        diff_magnitude = diffmag;
-        observ2body = o2b;
-
-#ifndef NDEBUG
-        SubLatModified = SubLatMod[1];
-        Ztwist = Ztwist2;
-    } else {
-        SubLatModified = SubLatMod[0];
-        Ztwist = Ztwist1;
-#endif  /* !NDEBUG */
-    }
+    double const diff_magnitude = (OA - observ2body * OA_O).magnitude();
 
     double const percent_diff =
         diff_magnitude / OA_O.magnitude() * 100;
@@ -625,10 +573,10 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_b,
                  "Observer");
 
     MaRC::debug("position_angle_ = {} degrees (positive is CCW)\n"
-                "SubLatModified = {}\n"
+                "SubLatMod = {}\n"
                 "Ztwist = {}\n",
                 position_angle_ / C::degree,
-                SubLatModified / C::degree,
+                SubLatMod / C::degree,
                 Ztwist / C::degree);
 
     // North pole vector in camera (observer) coordinates.
-- 
2.43.0


From b9ab91971218b73d1637964613112fd57213758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:52 +0000
Subject: [PATCH 14/50] fix: convert image positions relative to the optical
 axis

pix2latlon() measured from the body's centre, which is unset when the latitude
and longitude at the centre are given: no position was found to be on the body
then, and sky removal removed everything.
---
 lib/marc/ViewingGeometry.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 709df88..991e300 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -855,27 +855,25 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
                                   double & lat,
                                   double & lon) const
 {
-    sample -= this->sample_center_;
-    line    = this->line_center_ - line; // Negative since line
-                                         // numbers increase top to
-                                         // bottom (?)
+    // Reverse of the conversion done in latlon2pix().  In particular
+    // the optical axis is the origin since the body center isn't
+    // known if the latitude and longitude at the center were given.
+    sample -= this->OA_s_;
+    line    = this->OA_l_ - line; // Negative since line numbers
+                                  // increase top to bottom.
 
     // Convert from image space to object space.
-    this->geometric_correction_->image_to_object(sample, line);
+    this->geometric_correction_->image_to_object(line, sample);
 
     // ---------------------------------------------
 
     // Convert from observer coordinates to body coordinates
-    DVector const coord(sample, 0, line);
+    DVector const coord(sample, this->focal_length_pixels_, line);
 
-    // Do the transformation
-    DVector rotated(this->observ2body_ * coord);
-    rotated *= this->km_per_pixel_;
-
-    // ---------------------------------------------
-
-    // Vector from observer to point on image
-    DVector const dVec(rotated - this->range_b_);
+    // Do the transformation to get a vector from the observer to the
+    // point on the image.
+    DVector dVec(this->observ2body_ * coord);
+    dVec *= this->normal_range_ / this->focal_length_pixels_;
 
     int const success =
         this->body_->ellipse_intersection(this->range_b_,
-- 
2.43.0


From db2f28b3577f0628e275dd906f7937b0a93b56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:00 +0000
Subject: [PATCH 15/50] fix: longitude of an image position on a retrograde
 body

pix2latlon() subtracted the sub-observer longitude where latlon2pix() does the
same, instead of undoing it.
---
 lib/marc/ViewingGeometry.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 991e300..4c408ed 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -884,13 +884,10 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
     assert(success != -1);  // -1 == bad parameters
 
     if (success == 0) {
-        /**
-         * @todo Verify!
-         */
         if (this->body_->prograde())
             lon  = this->sub_observ_lon_ - lon;
         else
-            lon -= this->sub_observ_lon_;
+            lon += this->sub_observ_lon_;
     }
 
     return success == 0;
-- 
2.43.0


From 896f67a45c3a28a05ed617ae65c769009d518c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:08 +0000
Subject: [PATCH 16/50] fix: look at the centres of pixels when marking the
 body

The mask was computed for the upper left corners of the pixels, so that sky
removal was shifted by half a pixel.
---
 lib/marc/ViewingGeometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 4c408ed..5e1cb79 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -913,8 +913,8 @@ MaRC::ViewingGeometry::body_mask(std::size_t samples,
             auto lat = not_a_number;
             auto lon = not_a_number;
 
-            if (this->pix2latlon(i, k, lat, lon)) {
-                // On body
+            if (this->pix2latlon(i + 0.5, k + 0.5, lat, lon)) {
+                // Center of pixel is on body.
                 std::size_t const index = offset + i;
                 mask[index] = true;
             }
-- 
2.43.0


From 15880ef62aaeb7757deba9a51686736471414055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:49 +0000
Subject: [PATCH 17/50] fix: compute the camera's orientation without losing
 half the digits

The quadratic solved for the tilt of the camera nearly has a double root for
every observation from far away.  The rounding error, about 1e-8 radians over
the cosine of the sub-observer latitude, is a sizable fraction of a pixel, or
several pixels, at long focal lengths; a discriminant rounded below zero left
the orientation unset although an error was logged only.  Solve the underlying
trigonometric equation instead and refuse contradictory geometry.
---
 lib/marc/ViewingGeometry.cpp | 74 +++++++++++++-----------------------
 1 file changed, 26 insertions(+), 48 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 5e1cb79..5bc8dcb 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -370,69 +370,47 @@ MaRC::ViewingGeometry::rot_matrices(DVector const & range_o,
     DVector rotated;
     Geometry::RotY(-this->position_angle_, r_o, rotated);
     r_o = rotated;
-    DVector const temp2(rotated);
 
-    double const a = r_o[2] * r_o[2] + r_o[1] * r_o[1];
-    double const b = 2 * r_o[1] * std::sin(this->sub_observ_lat_);
-    double const c =
-        std::sin(this->sub_observ_lat_) * std::sin(this->sub_observ_lat_)
-        - r_o[2] * r_o[2];
+    // The rotation about the x-axis must make the z-component of the
+    // range vector the same in both coordinate systems:
+    //
+    //   r_o[2] * cos(SubLatMod) - r_o[1] * sin(SubLatMod) = sin(lat)
+    double const amplitude = std::hypot(r_o[1], r_o[2]);
+    double const sine = std::sin(this->sub_observ_lat_) / amplitude;
 
-    std::pair<double, double> SubLatModSin;
-
-    if (!MaRC::quadratic_roots(a, b, c, SubLatModSin)) {
+    // "Not less than or equal" rather than "greater than" to catch
+    // NaN, too.
+    if (!(std::abs(sine) <= 1)) {
         /*
-          No real roots.
-
-          Unable to find roots corresponding to sub-observation
-          latitudes when calculating suitable rotation matrices to go
-          between observer and body coordinates.
+          Unable to find sub-observation latitudes when calculating
+          suitable rotation matrices to go between observer and body
+          coordinates.
         */
-        MaRC::error("unable to calculate suitable rotation matrices");
-
-        return false;  // Failure
+        throw std::invalid_argument("unable to calculate suitable "
+                                    "rotation matrices");
     }
 
-    // ------------- TRY THE FIRST ROOT ------------
-    double SubLatMod = std::asin(SubLatModSin.first);
+    double const phase = std::atan2(r_o[2], -r_o[1]);
+    double SubLatMod = std::asin(sine) - phase;
 
-    Geometry::RotX(SubLatMod, r_o, rotated);
-    r_o = rotated;
-
-    double Ztwist = std::atan2(r_o[0], -r_o[1]);
-
-    // Observer to body transformation
-    DMatrix o2b(Geometry::RotZMatrix(Ztwist)
-                 * (Geometry::RotXMatrix(SubLatMod) *
-                    Geometry::RotYMatrix(-this->position_angle_)));
+    // The North pole must be on the side the position angle refers
+    // to.
+    if (std::cos(SubLatMod) < 0)
+        SubLatMod = C::pi - std::asin(sine) - phase;
 
-    observ2body = o2b;
-
-    double diff_magnitude =
-        (this->range_b_ - o2b * range_o).magnitude();
-
-    // ----------- TRY THE SECOND ROOT -------------
-    r_o = temp2; // Reset to value of vector after first rotation
-
-    SubLatMod = std::asin(SubLatModSin.second);
     Geometry::RotX(SubLatMod, r_o, rotated);
     r_o = rotated;
 
-    Ztwist = std::atan2(r_o[0], -r_o[1]);
+    double const Ztwist = std::atan2(r_o[0], -r_o[1]);
 
     // Observer to body transformation
-    o2b =
+    observ2body =
         Geometry::RotZMatrix(Ztwist)
-        * (Geometry::RotXMatrix(SubLatMod)
-           * Geometry::RotYMatrix(-this->position_angle_));
+        * (Geometry::RotXMatrix(SubLatMod) *
+           Geometry::RotYMatrix(-this->position_angle_));
 
-    double const test_diff_magnitude =
-        (this->range_b_ - o2b * range_o).magnitude();
-
-    if (diff_magnitude > test_diff_magnitude) {
-        diff_magnitude = test_diff_magnitude;
-        observ2body = o2b;
-    }
+    double const diff_magnitude =
+        (this->range_b_ - observ2body * range_o).magnitude();
 
     double const percent_diff =
         diff_magnitude / this->range_b_.magnitude() * 100;
-- 
2.43.0


From 56d7b7f008d01c99a9fc9199298f759870ed97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:21 +0000
Subject: [PATCH 18/50] fix: correct lens distortion at image coordinates

The Galileo SSI correction expects sample and line numbers but was given
offsets from the optical axis (line axis reversed), which displaced the centre
of distortion by half the image, several pixels in the corners.
---
 lib/marc/ViewingGeometry.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 5bc8dcb..038a3c7 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -818,12 +818,13 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
 
-    // Convert from object space to image space.
-    this->geometric_correction_->object_to_image(z, x);
-
     x += this->OA_s_;
     z  = this->OA_l_ - z; // Assumes line numbers increase top to
                           // bottom.
+
+    // Convert from object space to image space.
+    this->geometric_correction_->object_to_image(z, x);
+
     return true;
 }
 
@@ -836,13 +837,14 @@ MaRC::ViewingGeometry::pix2latlon(double sample,
     // Reverse of the conversion done in latlon2pix().  In particular
     // the optical axis is the origin since the body center isn't
     // known if the latitude and longitude at the center were given.
-    sample -= this->OA_s_;
-    line    = this->OA_l_ - line; // Negative since line numbers
-                                  // increase top to bottom.
 
     // Convert from image space to object space.
     this->geometric_correction_->image_to_object(line, sample);
 
+    sample -= this->OA_s_;
+    line    = this->OA_l_ - line; // Negative since line numbers
+                                  // increase top to bottom.
+
     // ---------------------------------------------
 
     // Convert from observer coordinates to body coordinates
-- 
2.43.0


From a7c4437e02e2e3956acbac957820c4f76becdedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:29 +0000
Subject: [PATCH 19/50] fix: do not map points behind the camera

A visible point more than ninety degrees off the optical axis was projected
through the camera to the opposite side of the image.
---
 lib/marc/ViewingGeometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/marc/ViewingGeometry.cpp b/lib/marc/ViewingGeometry.cpp
index 038a3c7..e368cb0 100644
--- a/lib/marc/ViewingGeometry.cpp
+++ b/lib/marc/ViewingGeometry.cpp
@@ -814,6 +814,9 @@ MaRC::ViewingGeometry::latlon2pix(double lat,
     // if (rotated[1] > this->normal_range_)
     //     return false;  // On other side of image plane / body.
 
+    if (!(rotated[1] > 0))
+        return false;  // Behind the camera.
+
     // Drop the "y" component since it is zero in the image plane.
     x = rotated[0] / rotated[1] * this->focal_length_pixels_;
     z = rotated[2] / rotated[1] * this->focal_length_pixels_;
-- 
2.43.0


From 72c7fd44fbfb51fbeef1ba5318265187e933f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:17 +0000
Subject: [PATCH 20/50] fix: handle lines of sight that graze the body or lead
 away from it

ellipse_intersection() asserted that the roots differ and come in a certain
order, aborting the program when a pixel's line of sight touches the limb or
points away from the body.
---
 lib/marc/OblateSpheroid.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 3a021a0..9ef4f29 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -13,9 +13,9 @@
 #include "Mathematics.h"
 #include "config.h"  // For NDEBUG.
 
+#include <algorithm>
 #include <stdexcept>
 #include <cmath>
-#include <cassert>
 
 
 namespace
@@ -238,7 +238,6 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
         is a vector that crosses the surface of the ellipsoid
         at least once.
       - ** returns lat and lon based on solution closest to vec> first
-          (i.e. k.second < k.first)
 
       output:
 
@@ -291,21 +290,16 @@ MaRC::OblateSpheroid::ellipse_intersection(DVector const & vec,
         return 1;  // Unsuccessful
     }
 
-    // MaRC::debug("(k0, k1) = ({}, {})",
-    //             k.first,
-    //             k.second);
+    // Use the solution closest to the observer.  Both are the same if
+    // the line grazes the ellipsoid.
+    double const k0 = std::min(k.first, k.second);
 
-    //   if (k.first < k.second)  // This is unlikely to be true.
-    //   //  if (std::abs(k.first) < std::abs(k.second))
-    //     k.second = k.first;
+    if (k0 < 0)
+        return 1;  // Ellipsoid is behind the observer.
 
-    // Use k.second as solution
-
-    assert(k.second < k.first);
-
-    double const x = vec[0] + k.second * dvec[0];
-    double const y = vec[1] + k.second * dvec[1];
-    double const z = vec[2] + k.second * dvec[2];
+    double const x = vec[0] + k0 * dvec[0];
+    double const y = vec[1] + k0 * dvec[1];
+    double const z = vec[2] + k0 * dvec[2];
 
     lat = std::atan(z / std::hypot(x, y));
     lon = std::atan2(x, -y);
-- 
2.43.0


From 33bc8ca337b07184ad1c70e03927b779071535db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 21/50] fix: choose a data type that suits the images of all
 planes

The data type of the first plane was used when the user gave none, even
if later planes hold wider data.
---
 src/map_parameters.cpp | 14 +++++++++++---
 src/map_parameters.h   |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/map_parameters.cpp b/src/map_parameters.cpp
index a19675b..e9f58ff 100644
--- a/src/map_parameters.cpp
+++ b/src/map_parameters.cpp
@@ -98,6 +98,7 @@ MaRC::map_parameters::bitpix(int n)
             fmt::format("Invalid FITS BITPIX value: {}", n));
 
     this->bitpix_ = n;
+    this->lock_parameter(param_key::bitpix);
 }
 
 int
@@ -277,7 +278,7 @@ MaRC::map_parameters::merge(MaRC::map_parameters & p)
 {
     // Merge required parameters.
     if (p.bitpix_ != 0
-        && (this->bitpix_ == 0 || !this->user_supplied())) {
+        && this->is_mergeable(param_key::bitpix)) {
         /**
          * @bug Choose @c BITPIX value based on @c SourceImage, such
          *      as the @c BITPIX value in a @c PhotoImage, or a
@@ -300,14 +301,21 @@ MaRC::map_parameters::merge(MaRC::map_parameters & p)
         /*
           Do not decrease map data type size.
 
-          Choose BITPIX value corresponding to larger data type.
+          Choose BITPIX value corresponding to larger data type.  Map
+          parameters gathered from several planes must suit the data
+          of all of them, meaning a floating point BITPIX must not be
+          replaced with an integer one in that case.
         */
+        bool const keep_float =
+            this->user_supplied() && this->bitpix_ < 0;
+
         if (this->bitpix_ == 0                 // not previously set
             || (p.bitpix_ > 0
+                && !keep_float
                 && p.bitpix_ > this->bitpix_)  // integer (override float)
             || (p.bitpix_ < 0
                 && p.bitpix_ < this->bitpix_)) // floating point
-            this->bitpix(p.bitpix_);
+            this->bitpix_ = p.bitpix_;
     }
 
     // Merge optional parameters.
diff --git a/src/map_parameters.h b/src/map_parameters.h
index cdbd31d..8d3f78c 100644
--- a/src/map_parameters.h
+++ b/src/map_parameters.h
@@ -338,6 +338,7 @@ namespace MaRC
         /// Convenience enumeration for identifying a given parameter.
         enum class param_key : bitset_type {
             author = 0,
+            bitpix,
             blank,
             bscale,
             bunit,
-- 
2.43.0


From 780f72fc7435965a44ef3c3f286b1cdb7c74a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 22/50] fix: take map facts from every photo of a mosaic

What an earlier photo says was replaced by what the last one says, or
does not say.
---
 src/MosaicImageFactory.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/MosaicImageFactory.cpp b/src/MosaicImageFactory.cpp
index 5c53660..a5dc5d3 100644
--- a/src/MosaicImageFactory.cpp
+++ b/src/MosaicImageFactory.cpp
@@ -9,6 +9,7 @@
  */
 
 #include "MosaicImageFactory.h"
+#include "map_parameters.h"
 
 #include <marc/first_read.h>
 #include <marc/unweighted_average.h>
@@ -59,16 +60,18 @@ bool
 MaRC::MosaicImageFactory::populate_parameters(
     MaRC::map_parameters &p) const
 {
-    /**
-     * @todo Verify this achieves the desired result since all photos
-     *       in this mosaic will plotted to the same map plane, rather
-     *       than different planes.
-     */
-    for (auto const & image : this->factories_)
-        if (!image->populate_parameters(p))
+    // Parameters found in any of the photos in this mosaic.
+    map_parameters merged;
+
+    for (auto const & image : this->factories_) {
+        constexpr int plane = 1;
+        map_parameters pp(plane);
+
+        if (!image->populate_parameters(pp) || !merged.merge(pp))
             return false;
+    }
 
-    return true;
+    return p.merge(merged);
 }
 
 std::unique_ptr<MaRC::SourceImage>
-- 
2.43.0


From 2962269eab1f3258332cf7f6c586f9d2ad427497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:58 +0000
Subject: [PATCH 23/50] fix: record the user's DATA_SCALE and DATA_OFFSET in
 the map

They were accepted but never written as BSCALE and BZERO.
---
 src/MapCommand.cpp   |  3 +--
 src/MapCommand.h     | 17 -----------------
 src/MapCommand_t.cpp | 30 ++++++++++++------------------
 3 files changed, 13 insertions(+), 37 deletions(-)

diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index ba05d8e..badffa4 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -75,7 +75,6 @@ MaRC::MapCommand::MapCommand(std::string filename,
     , filename_(std::move(filename))
     , lat_interval_(0)
     , lon_interval_(0)
-    , transform_data_(false)
     , create_grid_(false)
     , parameters_(std::move(params))
 {
@@ -335,7 +334,7 @@ MaRC::MapCommand::write_virtual_image_facts(MaRC::FITS::image & map_image,
           freeform text in a COMMENT or HISTORY card.
         */
 
-        if (this->transform_data_)
+        if (this->parameters_->bscale() || this->parameters_->bzero())
             MaRC::warn("computed scale and offset will override "
                        "user supplied values");
 
diff --git a/src/MapCommand.h b/src/MapCommand.h
index 5be9882..024aff8 100644
--- a/src/MapCommand.h
+++ b/src/MapCommand.h
@@ -194,23 +194,6 @@ namespace MaRC
         /// Longitude grid line interval.
         double lon_interval_;
 
-        /**
-         * @brief Flag that determines if data written to the %FITS
-         *        map file is transformed using a linear equation.
-         *
-         * The transformation equation used when writing data to a
-         * %FITS file is:
-         * @code{.cpp}
-         *   %FITS value = (physical value - BZERO) / BSCALE
-         * @endcode
-         * Meaning that the data read from the %FITS file will be
-         * transformed according to the linear equation:
-         * @code{.cpp}
-         *   physical value = %FITS value * BSCALE + BZERO
-         * @endcode
-         */
-        bool transform_data_;
-
         /// Flag that determines if a grid is created.
         bool create_grid_;
 
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index e27a23a..731f860 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -82,26 +82,20 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
 
     // Write the BSCALE and BZERO keywords and value into the map FITS
     // file.
-    if (this->transform_data_) {
-        /**
-         * @bug This code is never called since @c transform_data_ is
-         *      always false.  Support for allowing the user to
-         *      specify the BSCALE and BZERO values has been broken
-         *      for years so it is better to leave this code disabled
-         *      until that is corrected.
-         *
-         * @todo Should we disable CFITSIO automatic scaling via
-         *       @c fits_set_bscale() as we do for @c VirtualImage map
-         *       planes?
-         */
-        auto const bscale = this->parameters_->bscale();
-        auto const bzero  = this->parameters_->bzero();
+    auto const bscale = this->parameters_->bscale();
+    auto const bzero  = this->parameters_->bzero();
 
-        if (bscale)
-            map_image->bscale(*bscale);
+    if (bscale || bzero) {
+        map_image->bscale(bscale ? *bscale : 1);
+        map_image->bzero(bzero ? *bzero : 0);
 
-        if (bzero)
-            map_image->bzero(*bzero);
+        /*
+          The user supplied scale and offset describe the data.  Do
+          not let CFITSIO transform the data when writing it.
+        */
+        constexpr double internal_scale  = 1;
+        constexpr double internal_offset = 0;
+        map_image->internal_scale(internal_scale, internal_offset);
     }
 
     /**
-- 
2.43.0


From 3245552915363bcdfa5d044f962e6e2f12574d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:29 +0000
Subject: [PATCH 24/50] fix: keep computed cosines within their bounds

Rounding could make the cosine of an emission, incidence or phase angle
exceed one, for example directly below the observer, which ended the
program.
---
 lib/marc/OblateSpheroid.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/marc/OblateSpheroid.cpp b/lib/marc/OblateSpheroid.cpp
index 9ef4f29..a2aec77 100644
--- a/lib/marc/OblateSpheroid.cpp
+++ b/lib/marc/OblateSpheroid.cpp
@@ -28,6 +28,12 @@ namespace
 
         return r;
     }
+
+    /// Remove rounding error that makes a cosine exceed its bounds.
+    double valid_cosine(double c)
+    {
+        return std::clamp(c, -1.0, 1.0);
+    }
 }
 
 MaRC::OblateSpheroid::OblateSpheroid(bool prograde,
@@ -137,7 +143,7 @@ MaRC::OblateSpheroid::mu(double sub_observ_lat,
     double const latg = this->graphic_latitude(lat);
     double const ellipse_radius = this->centric_radius(lat);
 
-    return
+    double const cosine =
         ((range * std::sin(sub_observ_lat) * std::sin(latg)
           - ellipse_radius * std::cos(lat - latg))
          + range * std::cos(sub_observ_lat) *
@@ -149,6 +155,8 @@ MaRC::OblateSpheroid::mu(double sub_observ_lat,
                   (std::sin(sub_observ_lat) * std::sin(lat) +
                    std::cos(sub_observ_lat) *
                    std::cos(lat) * std::cos(sub_observ_lon - lon)));
+
+    return valid_cosine(cosine);
 }
 
 double
@@ -161,12 +169,14 @@ MaRC::OblateSpheroid::mu0(double sub_solar_lat,
 
     double const latg = this->graphic_latitude(lat);
 
-    return
+    double const cosine =
         std::sin(sub_solar_lat) * std::sin(latg)
         + std::cos(sub_solar_lat) * std::cos(latg)
           * std::cos(sub_solar_lon - lon);
     // The above equation assumes the sun to be an infinite distance
     // away.
+
+    return valid_cosine(cosine);
 }
 
 // Cosine of phase angle (observer range taken into account)
@@ -184,7 +194,7 @@ MaRC::OblateSpheroid::cos_phase(double sub_observ_lat,
 
     double const ellipse_radius = this->centric_radius(lat);
 
-    return
+    double const cosine =
         (range * (std::cos(sub_observ_lat) * std::cos(sub_solar_lat) *
                   std::cos(sub_observ_lon - sub_solar_lon) +
                   std::sin(sub_observ_lat) * std::sin(sub_solar_lat)) -
@@ -199,6 +209,8 @@ MaRC::OblateSpheroid::cos_phase(double sub_observ_lat,
                   (std::sin(sub_observ_lat) * std::sin(lat)
                    + std::cos(sub_observ_lat) *
                    std::cos(lat) * std::cos(sub_observ_lon - lon)));
+
+    return valid_cosine(cosine);
 }
 
 double
-- 
2.43.0


From 543f27866ab3a9996f3b1bff99a21a342af93a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:44 +0000
Subject: [PATCH 25/50] fix: read images of files with more than two axes

Only two coordinates of the first pixel were given to CFITSIO, which
then read a third one beyond them.
---
 src/FITS_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index eb1e71e..25b3468 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -425,7 +425,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
      *
      * @attention First pixel in CFITSIO is {1, 1} not {0, 0}.
      */
-    LONGLONG fpixel[] = {1, 1};
+    std::vector<LONGLONG> fpixel(naxis, 1);
 
     // For integer typed FITS images with a BLANK value, set the
     // "blank" value in our floating point converted copy of the image
@@ -438,7 +438,7 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
 
     if (fits_read_pixll(this->fptr_.get(),
                         traits<value_type>::datatype,
-                        fpixel,
+                        fpixel.data(),
                         nelements,
                         &nulval,  // "Blank" value in our image.
                         tmp.data(),
-- 
2.43.0


From b2fcab92824864b173bbfc4d9b9cbe12660b60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:33 +0000
Subject: [PATCH 26/50] fix: do not let the latitude type of a plane leak into
 later planes and maps

LATITUDE: GRAPHIC left the latitude type set, so that a later LATITUDE
plane or simple cylindrical map without a latitude type became
planetographic.
---
 src/parse.yy | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 5255004..97392c4 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1377,6 +1377,9 @@ lat_plane: LATITUDE ':' lat_type {
             image_factory =
                 std::make_unique<MaRC::LatitudeImageFactory>(
                     oblate_spheroid, graphic_lat);
+
+            // Reset option
+            graphic_lat = false;
            }
 ;
 
-- 
2.43.0


From 85030c3c5131e0c04923e9a9715e030e86c593d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:54 +0000
Subject: [PATCH 27/50] fix: honour the values of the user configuration file

The data range was ignored unless it was not set, an interval that was
not set became zero, and a file without grid intervals was refused
although all entries are optional.
---
 src/parse.yy | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 97392c4..2110810 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -329,8 +329,8 @@ long map_lines = 0;
 
 // To create a grid or not to create a grid?  That is the question.
 bool create_grid = false;
-double lat_interval;
-double lon_interval;
+double lat_interval = 0;
+double lon_interval = 0;
 
 std::unique_ptr<MaRC::PhotoImageFactory> photo_factory;
 MaRC::MosaicImageFactory::list_type photo_factories;
@@ -539,21 +539,29 @@ map:    map_parse
 ;
 
 user_file_parse:
-        grid_intervals plane_data_range nibbling {
+        user_grid_intervals plane_data_range nibbling {
           // Reset defaults to those chosen by the user.  If none were
           // chosen by the user, the values will remain unchanged.
 
-          pp.lat_interval = lat_interval;
-          pp.lon_interval = lon_interval;
+          if (lat_interval > 0)
+              pp.lat_interval = lat_interval;
 
-          if (!minimum)
+          if (lon_interval > 0)
+              pp.lon_interval = lon_interval;
+
+          if (minimum)
               pp.minimum = minimum;
 
-          if (!maximum)
+          if (maximum)
               pp.maximum = maximum;
         }
 ;
 
+user_grid_intervals:
+        %empty
+        | grid_intervals
+;
+
 map_parse:
         map_setup
         | map_setup map_parse
-- 
2.43.0


From 4593626f980a9e42671b9bff4334b3ff235e632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:15 +0000
Subject: [PATCH 28/50] fix: refuse fractions and exponents where an integer is
 expected

SAMPLES: 2.5 was taken to be 2, and LINES: 1e3 to be 1.
---
 src/parse.yy | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.yy b/src/parse.yy
index 2110810..6390f10 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -309,6 +309,13 @@ namespace
             return false;
         }
 
+        if (*end != '\0') {
+            MaRC::error("invalid number ({}): unexpected \"{}\"",
+                        str,
+                        end);
+            return false;
+        }
+
         return true;
     }
 }
-- 
2.43.0


From 394ae2e3230e14626b7eff3dbf5e202dde0d2b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 29/50] fix: refuse focal lengths and pixel scales that are not
 positive

They were silently ignored until the map was made.
---
 src/parse.yy | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 6390f10..556954c 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1485,11 +1485,31 @@ lens_geometry:
 ;
 
 focal_length:
-        FOCAL_LENGTH ':' expr  { focal_length_val = $3; }
+        FOCAL_LENGTH ':' expr  {
+            if ($3 > 0) {
+                focal_length_val = $3;
+            } else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "FOCAL_LENGTH must be greater than zero.");
+                YYERROR;
+            }
+        }
 ;
 
 pixel_scale:
-        PIXEL_SCALE ':' expr  { pixel_scale_val = $3; }
+        PIXEL_SCALE ':' expr  {
+            if ($3 > 0) {
+                pixel_scale_val = $3;
+            } else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "PIXEL_SCALE must be greater than zero.");
+                YYERROR;
+            }
+        }
 ;
 
 /* ------ Alber's Equivalent Projection Setup - One Standard Parallel ------ */
-- 
2.43.0


From 808610074cb84a3a931f978e70d2dfd7769599f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:02 +0000
Subject: [PATCH 30/50] fix: let the parser handle the sign of numbers

The scanner made the sign part of the number, so that "5-3" was a syntax
error and "-2^2" was four, unlike "5 - (3)" and "-(2)^2".
---
 src/lexer.ll |  2 +-
 src/parse.yy | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index 936f3f5..4a41dfd 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -115,7 +115,7 @@ void yyset_column(int, yyscan_t);
         "KM"                            { return KM;  }
         "CW"                            { return CW;  }
         "CCW"                           { return CCW; }
-        [-+]?[[:digit:]]*("."[[:digit:]]*)?(E[-+]?[[:digit:]]{1,3})?  {
+        ([[:digit:]]+("."[[:digit:]]*)?|"."[[:digit:]]+)(E[-+]?[[:digit:]]{1,3})?  {
             // String to number conversion occurs in the parser.
             yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner));
 
diff --git a/src/parse.yy b/src/parse.yy
index 556954c..240fd1e 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -885,6 +885,19 @@ integer: NUM {
             if (!from_string($1, $$))
                 YYERROR;
         }
+        | '+' NUM {
+            auto_free<char> str($2);
+            if (!from_string($2, $$))
+                YYERROR;
+        }
+        | '-' NUM {
+            // Convert the sign along with the digits since the most
+            // negative integer has no positive counterpart.
+            auto_free<char> str($2);
+            if (!from_string((std::string("-") + $2).c_str(), $$))
+                YYERROR;
+        }
+;
 
 size:   integer { $$ = $1; }
 ;
@@ -2189,6 +2202,7 @@ expr:   NUM {
             }
         }
         | '-' expr  %prec NEG   { $$ = -$2;                        }
+        | '+' expr  %prec NEG   { $$ = $2;                         }
         | expr '^' expr         { $$ = std::pow($1, $3);           }
         | '(' expr ')'          { $$ = $2;                         }
 ;
-- 
2.43.0


From 3277f1ee9dc3fb9885118effe4b7459b0fe9c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:33 +0000
Subject: [PATCH 31/50] fix: refuse expressions without a finite value

Expressions such as sqrt(-1) slipped through the checks of the values of
longitudes, position angles and grid intervals.
---
 src/parse.yy | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/parse.yy b/src/parse.yy
index 240fd1e..752fd00 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -454,7 +454,7 @@ using auto_free = std::unique_ptr<T, deallocate_with_free>;
 %token <tptr> VAR FNCT
 %token <sval> _STRING
 %type <val> latitude latitude_sub longitude
-%type <val> position_angle range expr
+%type <val> position_angle range expr calc
 %type <ival> integer size
 %type <bval> rotation
 %type <sub_observ_data> sub_observ
@@ -2179,18 +2179,31 @@ longitude:
 
 /* --------------- Multifunction Infix Notation Calculator ----------------- */
 /* All numbers will be handled with double precision here. */
-expr:   NUM {
+expr:   calc {
+            if (std::isfinite($1))
+                $$ = $1;
+            else {
+                yyerror(&yylloc,
+                        scanner,
+                        pp,
+                        "value of expression is not a finite number");
+                YYERROR;
+            }
+        }
+;
+
+calc:   NUM {
             auto_free<char> str($1);
             if (!from_string($1, $$))
                 YYERROR;
         }
         | VAR                   { $$ = $1->value.var;              }
-        | VAR '=' expr          { $$ = $3; $1->value.var = $3;     }
-        | FNCT '(' expr ')'     { $$ = (*($1->value.fnctptr))($3); }
-        | expr '+' expr         { $$ = $1 + $3;                    }
-        | expr '-' expr         { $$ = $1 - $3;                    }
-        | expr '*' expr         { $$ = $1 * $3;                    }
-        | expr '/' expr         {
+        | VAR '=' calc          { $$ = $3; $1->value.var = $3;     }
+        | FNCT '(' calc ')'     { $$ = (*($1->value.fnctptr))($3); }
+        | calc '+' calc         { $$ = $1 + $3;                    }
+        | calc '-' calc         { $$ = $1 - $3;                    }
+        | calc '*' calc         { $$ = $1 * $3;                    }
+        | calc '/' calc         {
             if ($3 != 0)
                 $$ = $1 / $3;
             else {
@@ -2201,10 +2214,10 @@ expr:   NUM {
                 YYERROR;
             }
         }
-        | '-' expr  %prec NEG   { $$ = -$2;                        }
-        | '+' expr  %prec NEG   { $$ = $2;                         }
-        | expr '^' expr         { $$ = std::pow($1, $3);           }
-        | '(' expr ')'          { $$ = $2;                         }
+        | '-' calc  %prec NEG   { $$ = -$2;                        }
+        | '+' calc  %prec NEG   { $$ = $2;                         }
+        | calc '^' calc         { $$ = std::pow($1, $3);           }
+        | '(' calc ')'          { $$ = $2;                         }
 ;
 /* ------------------------------------------------------------------------- */
 
-- 
2.43.0


From 8ff03078a39cc2dbb09bfc32ae5bbe17a701e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 32/50] fix: report input files that cannot be opened

The reason why nothing was done was only printed as a debug message.
---
 src/marc.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/marc.cpp b/src/marc.cpp
index 79ed1b9..644e2e7 100644
--- a/src/marc.cpp
+++ b/src/marc.cpp
@@ -87,29 +87,40 @@ namespace MaRC
      * @param[in]     filename %MaRC configuration or input file to
      *                         parse.
      * @param[in,out] pp       %MaRC configuration parameters.
+     * @param[in]     optional Do not report that @a filename does not
+     *                         exist.
      *
      * @retval  0 Parsing succeded.
      * @retval  1 Parsing failed due to invalid input.
      * @retval  2 Parsing failed due to memory exhaustion.
      * @retval -1 Error occurred.  Check @c errno.
      */
-    int parse_file(char const * filename, MaRC::ParseParameter & pp)
+    int parse_file(char const * filename,
+                   MaRC::ParseParameter & pp,
+                   bool optional = false)
     {
         errno = 0;
         MaRC::FILE_unique_ptr const file(std::fopen(filename, "r"));
 
         if (!file) {
-#ifndef NDEBUG
+            int const error_number = errno;
+
             constexpr std::size_t BUFLEN = 80;
             char buf[BUFLEN] = {};
 
             char const * const error =
-                MaRC::strerror(errno, buf, std::size(buf));
+                MaRC::strerror(error_number, buf, std::size(buf));
+
+            if (optional && error_number == ENOENT)
+                MaRC::debug("Unable to open input file '{}': {}",
+                            filename,
+                            error);
+            else
+                MaRC::error("Unable to open input file '{}': {}",
+                            filename,
+                            error);
 
-            MaRC::debug("Unable to open input file '{}': {}",
-                        filename,
-                        error);
-#endif
+            errno = error_number;
 
             return -1;
         }
@@ -198,7 +209,11 @@ int main(int argc, char *argv[])
         std::string const config_file(MaRC::get_config_filename());
 
         // Parse user configuration file, if it exists.
-        if (MaRC::parse_file(config_file.c_str(), parse_parameter) != 0
+        constexpr bool optional = true;
+
+        if (MaRC::parse_file(config_file.c_str(),
+                             parse_parameter,
+                             optional) != 0
             && errno != ENOENT) {
             // Scanner or parser error.
             return -1;
-- 
2.43.0


From 9c99a4fe67fa4c87403ae3554bb767a18e967210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:42 +0000
Subject: [PATCH 33/50] fix: a map that could not be completely written is an
 error

Failures to create the image, write a plane, the grid or the checksum,
or to flush and close the file went unnoticed: marc exited with status
zero and left an incomplete map behind.
---
 src/FITS_file.cpp    | 60 ++++++++++++++++++++++++++++++++++++++++++++
 src/FITS_file.h      | 17 +++++++++++++
 src/FITS_image.cpp   |  7 ++++--
 src/FITS_image.h     |  9 ++++++-
 src/MapCommand.cpp   |  7 +++++-
 src/MapCommand_t.cpp |  8 ++++--
 6 files changed, 102 insertions(+), 6 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 25b3468..601d043 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -16,6 +16,7 @@
 #include <limits>
 #include <type_traits>
 #include <stdexcept>
+#include <string>
 
 
 namespace MaRC
@@ -324,6 +325,65 @@ MaRC::FITS::output_file::output_file(char const * filename)
 {
 }
 
+void
+MaRC::FITS::output_file::close()
+{
+    auto const c = std::get_deleter<closer>(this->fptr_);
+
+    if (c == nullptr || c->closed)
+        return;
+
+    int status = 0;
+
+    char url[FLEN_FILENAME] = { 0 };
+    fits_file_name(this->fptr_.get(), url, &status);
+
+    char name[FLEN_FILENAME] = { 0 };
+    fits_parse_rootname(url, name, &status);
+
+    int hdus = 0;
+    fits_get_num_hdus(this->fptr_.get(), &hdus, &status);
+
+    throw_on_error(status);
+
+    // CFITSIO releases its resources even if an error occurs.
+    c->closed = true;
+    fits_close_file(this->fptr_.get(), &status);
+
+    throw_on_error(status);
+
+    // CFITSIO does not report all failures to write to the file, such
+    // as those that occur when flushing it.  Make sure that everything
+    // made it to the file.
+    fitsfile * written = nullptr;
+    fits_open_file(&written, name, READONLY, &status);
+
+    throw_on_error(status);
+
+    shared_ptr const fptr(written, closer());
+
+    for (int i = 1; i <= hdus; ++i) {
+        int naxis = 0;
+        int data_ok = 0;
+        int hdu_ok = 0;
+
+        fits_movabs_hdu(written, i, nullptr, &status);
+        fits_get_img_dim(written, &naxis, &status);
+
+        if (status == 0 && naxis == 0)
+            continue;  // Contains no image, e.g. if compressed.
+
+        fits_verify_chksum(written, &data_ok, &hdu_ok, &status);
+
+        throw_on_error(status);
+
+        if (data_ok != 1 || hdu_ok != 1)
+            throw std::runtime_error(
+                "FITS file was not completely written: "
+                + std::string(name));
+    }
+}
+
 std::unique_ptr<MaRC::FITS::image>
 MaRC::FITS::output_file::make_image(int bitpix,
                                     size_t samples,
diff --git a/src/FITS_file.h b/src/FITS_file.h
index 0ecdc26..9a326af 100644
--- a/src/FITS_file.h
+++ b/src/FITS_file.h
@@ -69,12 +69,18 @@ namespace MaRC
                  */
                 void operator()(fitsfile * fptr) const
                 {
+                    if (this->closed)
+                        return;
+
                     int status = 0;
                     fits_close_file(fptr, &status);
 
                     // At this point we don't really care about the
                     // status.  Don't bother checking it.
                 }
+
+                /// Has the file already been closed explicitly?
+                bool closed = false;
             };
 
             /**
@@ -271,6 +277,17 @@ namespace MaRC
             /// Destructor
             ~output_file() = default;
 
+            /**
+             * @brief Write what remains to be written and close the
+             *        file.
+             *
+             * Neither this file nor the images in it may be used
+             * after it was closed.
+             *
+             * @throw std::runtime_error Error writing to the file.
+             */
+            void close();
+
             /**
              * @brief Create a %FITS image array HDU.
              *
diff --git a/src/FITS_image.cpp b/src/FITS_image.cpp
index 05eb055..879f35c 100644
--- a/src/FITS_image.cpp
+++ b/src/FITS_image.cpp
@@ -64,6 +64,8 @@ MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
                              naxes,
                              &status);
 
+    MaRC::FITS::throw_on_error(status);
+
     update_fits_key(this->fptr_.get(),
                     "EXTNAME",
                     extname,
@@ -90,14 +92,15 @@ MaRC::FITS::image::image(MaRC::FITS::file::shared_ptr fptr,
     MaRC::FITS::throw_on_error(status);
 }
 
-MaRC::FITS::image::~image()
+void
+MaRC::FITS::image::checksum()
 {
     int status = 0;
 
     // Write a checksum for the image.
     fits_write_chksum(this->fptr_.get(), &status);
 
-    fits_report_error(stderr, status);  // Do not throw in destructor!
+    MaRC::FITS::throw_on_error(status);
 }
 
 void
diff --git a/src/FITS_image.h b/src/FITS_image.h
index a0ecc7d..f929bca 100644
--- a/src/FITS_image.h
+++ b/src/FITS_image.h
@@ -68,7 +68,14 @@ namespace MaRC
             image & operator=(image const &) = delete;
 
             /// Destructor.
-            ~image();
+            ~image() = default;
+
+            /**
+             * @brief Write the checksum of the complete image.
+             *
+             * @throw std::runtime_error Error writing the checksum.
+             */
+            void checksum();
 
             /**
              * @name Standard %FITS Keyword Accessors
diff --git a/src/MapCommand.cpp b/src/MapCommand.cpp
index badffa4..ba88bbf 100644
--- a/src/MapCommand.cpp
+++ b/src/MapCommand.cpp
@@ -181,6 +181,8 @@ MaRC::MapCommand::execute()
     // Write the map grid if requested.
     this->write_grid(f);
 
+    f.close();
+
     std::cout << "Created map: " << this->filename_ << '\n';
 
     return 0;
@@ -257,7 +259,10 @@ MaRC::MapCommand::write_grid(MaRC::FITS::output_file & map_file)
               << " seconds.\n";
 
     if(!grid_image->template write<grid_type>(grid))
-        MaRC::error("Unable to write grid image to map file.");
+        throw std::runtime_error(
+            "Unable to write grid image to map file.");
+
+    grid_image->checksum();
 }
 
 void
diff --git a/src/MapCommand_t.cpp b/src/MapCommand_t.cpp
index 731f860..baa2b0d 100644
--- a/src/MapCommand_t.cpp
+++ b/src/MapCommand_t.cpp
@@ -21,6 +21,7 @@
 
 #include <marc/details/format.h>
 
+#include <stdexcept>
 #include <type_traits>
 
 #include <fitsio.h>
@@ -162,8 +163,9 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
             MaRC::warn("No data mapped for plane {}.", plane_count);
 
         if (!map_image->template write<decltype(map)>(map))
-            MaRC::error("Unable to write plane {} to map file.",
-                        plane_count);
+            throw std::runtime_error(
+                fmt::format("Unable to write plane {} to map file.",
+                            plane_count));
 
         ++plane_count;
     }
@@ -177,6 +179,8 @@ MaRC::MapCommand::make_map_planes(MaRC::FITS::output_file & file)
         map_image->template datamin<T>(*info.minimum());
         map_image->template datamax<T>(*info.maximum());
     }
+
+    map_image->checksum();
 }
 
 
-- 
2.43.0


From f82746234d7ca5e8f05bc1071f48ce44c8ffac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:29 +0000
Subject: [PATCH 34/50] fix: an empty comment line does not swallow the next
 line

---
 src/lexer.ll | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lexer.ll b/src/lexer.ll
index 4a41dfd..c4811d4 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -78,6 +78,12 @@ void yyset_column(int, yyscan_t);
     return _STRING;
     /* Comments must end with a carriage return */
                         }
+<comment>\n             {
+    /* Nothing follows the colon.  Don't take the next line as text. */
+    BEGIN(INITIAL);
+    yyget_lval(yyscanner)->sval = strdup("");
+    return _STRING;
+                        }
 <keyword_token>[:]      { BEGIN(INITIAL); return ':'; }
 <string>{
         [:]             return ':';
-- 
2.43.0


From a3ed474644aaa3b9007d71012c43e6c9211ec485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:37 +0000
Subject: [PATCH 35/50] fix: refuse emission angle limits outside of the
 documented range

---
 src/parse.yy | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parse.yy b/src/parse.yy
index 752fd00..d6b7604 100644
--- a/src/parse.yy
+++ b/src/parse.yy
@@ -1452,7 +1452,16 @@ geom_correct:
 
 emi_ang_limit:
         %empty
-        | _EMI_ANG_LIMIT ':' expr { viewing_geometry->emi_ang_limit($3); }
+        | _EMI_ANG_LIMIT ':' expr {
+            if ($3 > 0 && $3 < 90) {
+                viewing_geometry->emi_ang_limit($3);
+            } else {
+                MaRC::error("incorrect emission angle limit "
+                            "entered: {}",
+                            $3);
+                YYERROR;
+            }
+        }
 ;
 
 terminator:
-- 
2.43.0


From dd167b7848101a48f698040422166807c0730132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:20 +0000
Subject: [PATCH 36/50] fix: strings may immediately follow the colon

---
 src/lexer.ll | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lexer.ll b/src/lexer.ll
index c4811d4..5e3cd68 100644
--- a/src/lexer.ll
+++ b/src/lexer.ll
@@ -63,6 +63,7 @@ void yyset_column(int, yyscan_t);
 %x comment
 %s keyword_token
 %x expression
+%s string_init
 %s string
 %s pole
 
@@ -85,8 +86,13 @@ void yyset_column(int, yyscan_t);
     return _STRING;
                         }
 <keyword_token>[:]      { BEGIN(INITIAL); return ':'; }
+<string_init>[:]        {
+                          BEGIN(string); return ':';
+                          /* This colon is separated from <string> so
+                             that it isn't taken as part of a string
+                             that immediately follows it. */
+                        }
 <string>{
-        [:]             return ':';
         [[:graph:]]+    BEGIN(INITIAL); yyget_lval(yyscanner)->sval = strdup(yyget_text(yyscanner)); return _STRING;
 }
 <pole>{
@@ -175,7 +181,7 @@ void yyset_column(int, yyscan_t);
 "SIMPLE_C"      { return _SIMPLE_C; }
 "SINUSOID"      { return _SINUSOID; }
 
-"MAP"           { BEGIN(string); return _MAP; }
+"MAP"           { BEGIN(string_init); return _MAP; }
 "AUTHOR"        { BEGIN(comment_init); return AUTHOR; }
 "ORIGIN"        { BEGIN(comment_init); return ORIGIN; }
 "COMMENT"       { BEGIN(comment_init); return _COMMENT; }
@@ -192,7 +198,7 @@ void yyset_column(int, yyscan_t);
 "PROJECTION"    { BEGIN(keyword_token); return MAP_TYPE; }
 "SAMPLES"       { return SAMPLES; }
 "LINES"         { return LINES; }
-"BODY"          { BEGIN(string); return BODY; }
+"BODY"          { BEGIN(string_init); return BODY; }
 "AVERAGING"     { BEGIN(keyword_token); return AVERAGING; }
 "NONE"          { return _NONE; }
 "WEIGHTED"      { return WEIGHTED; }
@@ -205,7 +211,7 @@ void yyset_column(int, yyscan_t);
 "EQ_RAD"        { return EQ_RAD; }
 "POL_RAD"       { return POL_RAD; }
 "ROTATION"      { BEGIN(keyword_token); return ROTATION; }
-"IMAGE"         { BEGIN(string); return _IMAGE; }
+"IMAGE"         { BEGIN(string_init); return _IMAGE; }
 "PHOTO"         { return _PHOTO; }
 "MU"            { BEGIN(keyword_token); return _MU; }
 "MU0"           { BEGIN(keyword_token); return _MU0; }
@@ -244,7 +250,7 @@ void yyset_column(int, yyscan_t);
 "LON_AT_CENTER" { return LON_AT_CENTER; }
 "SAMPLE_OA"     { return SAMPLE_OA; }
 "LINE_OA"       { return LINE_OA; }
-"FLAT_FIELD"    { BEGIN(string); return FLAT_FIELD; }
+"FLAT_FIELD"    { BEGIN(string_init); return FLAT_FIELD; }
 "MINNAERT"      { return MINNAERT; }
 "AUTO"          { return AUTO; }
 "TABLE"         { return TABLE; }
-- 
2.43.0


From 54093241a3da54be1681474e9777842446809122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:10 +0000
Subject: [PATCH 37/50] fix: draw the parallels of retrograde bodies where they
 are

The longitudes of parallels drawn in the grid of an orthographic map
were shifted by twice the sub-observer longitude for bodies with
retrograde rotation, unlike the meridians of the same grid.
---
 lib/marc/Orthographic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index c7af384..696d60d 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -486,7 +486,7 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
                 if (this->body_->prograde())
                     mm = this->sub_observ_lon_ + C::pi - mm;
                 else
-                    mm -= C::pi - this->sub_observ_lon_;
+                    mm -= C::pi + this->sub_observ_lon_;
 
                 DVector const coord = p.body2obs() * DVector(
                      radius * std::cos(nn) * std::sin(mm),
-- 
2.43.0


From f6d7915500454c6298921ff3db69f720d8d58761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:17 +0000
Subject: [PATCH 38/50] fix: draw all meridians of a full simple cylindrical
 map

Meridians below the lower longitude were missing from the grid of a
map that starts and ends at the same non-zero longitude.
---
 lib/marc/SimpleCylindrical.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/marc/SimpleCylindrical.cpp b/lib/marc/SimpleCylindrical.cpp
index 8b5c30e..f7d9df4 100644
--- a/lib/marc/SimpleCylindrical.cpp
+++ b/lib/marc/SimpleCylindrical.cpp
@@ -182,13 +182,16 @@ MaRC::SimpleCylindrical::plot_grid(std::size_t samples,
      */
     // Draw longitude lines.
     for (double m = 360; m > 0; m -= lon_interval) {
-        // lo_lon_2 is a work-around for lo_lon_ > hi_lon_ problems
-        auto lo_lon_2 = lo_lon;
+        // Longitude relative to the lower longitude of the map, which
+        // may be less than zero, or equal to the upper longitude.
+        auto lon = m - lo_lon;
 
-        if (m - lo_lon > 360)
-            lo_lon_2 += 360;
+        if (lon > 360)
+            lon -= 360;
+        else if (lon < 0)
+            lon += 360;
 
-        decltype(samples) i = std::round((m - lo_lon_2) * sr);
+        decltype(samples) i = std::round(lon * sr);
 
         if (this->body_->prograde())
             i = samples - i;
-- 
2.43.0


From 4ceab024cc213a7c8b3b6d28f2278a77cf5753a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:51 +0000
Subject: [PATCH 39/50] fix: draw the polar stereographic grid where the map
 shows it

The grid was scaled to one pixel less than the map, ignored in which
direction longitudes increase in the map, drew each meridian together
with the opposite one, and had gaps in maps of small areas.
---
 lib/marc/PolarStereographic.cpp | 88 +++++++++++++--------------------
 1 file changed, 35 insertions(+), 53 deletions(-)

diff --git a/lib/marc/PolarStereographic.cpp b/lib/marc/PolarStereographic.cpp
index ed1cd60..18b3b3e 100644
--- a/lib/marc/PolarStereographic.cpp
+++ b/lib/marc/PolarStereographic.cpp
@@ -244,40 +244,27 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
                                     double lon_interval,
                                     grid_type & grid) const
 {
-    static constexpr std::size_t imax = 2000;
-
     double const rho_max =
         this->stereo_rho(this->body_->graphic_latitude(this->max_lat_));
-    double const min_dim = std::min(samples - 1, lines - 1);
+    auto const min_dim = std::min(samples, lines);
     double const pix_conv_val = 2 * rho_max / min_dim;
 
+    // Whether longitudes increase counter-clockwise in map.
+    bool const ccw = (this->north_pole_ == this->body_->prograde());
+
     static constexpr auto white =
         std::numeric_limits<typename grid_type::value_type>::max();
 
-    // Draw latitude lines
-    for (double n = -90 + lat_interval; n < 90; n += lat_interval) {
-        /**
-         * @bug Shouldn't we take into account the maximum latitude of
-         *      the projection here?
-         */
-
-        // Convert to planetographic latitude.
-        double const nn = this->body_->graphic_latitude(n * C::degree);
-
-        double const rho = this->stereo_rho(nn);
+    // Draw the point at the given distance (pixels) from the pole at
+    // the center of the map.
+    auto const draw =
+        [&](double rho, double lon)
+        {
+            double const z = rho * std::cos(lon);
+            double const x = rho * std::sin(ccw ? lon : -lon);
 
-        for (std::size_t m = 0; m < imax; ++m) {
-            double const mm =
-                static_cast<double>(m) / imax * C::degree * 360;
-
-            double const z = rho * std::cos(mm);
-            double const x = rho * std::sin(mm);
-
-            // if (z > rho_max || x > rho_max)
-            //     continue;
-
-            double const k = std::round(z / pix_conv_val + lines / 2.0);
-            double const i = std::round(x / pix_conv_val + samples / 2.0);
+            double const k = std::round(z + lines / 2.0);
+            double const i = std::round(x + samples / 2.0);
 
             if (i >= 0 && i < static_cast<double>(samples)
                 && k >= 0 && k < static_cast<double>(lines)) {
@@ -286,41 +273,36 @@ MaRC::PolarStereographic::plot_grid(std::size_t samples,
 
                 grid[offset + static_cast<std::size_t>(i)] = white;
             }
-        }
-    }
-
-    // Draw longitude lines.
-    for (double m = 360; m > 0; m -= lon_interval) {
-        double const mm = m * C::degree;  // Convert to radians
+        };
 
-        for (std::size_t n = 0; n < imax; ++n) {
-            double const nn =
-                static_cast<double>(n) / imax * C::degree * 360;
+    // Distance from the center of the map to its corners (pixels).
+    double const max_distance = std::hypot(samples, lines) / 2 + 1;
 
-            /**
-             * @bug Shouldn't we take into account the maximum
-             *      latitude of the projection here?
-             */
+    // Draw latitude lines
+    for (double n = -90 + lat_interval; n < 90; n += lat_interval) {
+        // Convert to planetographic latitude.
+        double const nn = this->body_->graphic_latitude(n * C::degree);
 
-            double const rho = this->stereo_rho(nn);
+        double const rho = this->stereo_rho(nn) / pix_conv_val;
 
-            double const z = rho * std::cos(mm);
-            double const x = rho * std::sin(mm);
+        if (rho > max_distance)
+            continue;  // Not in the map.
 
-            // if (z > rho_max || x > rho_max)
-            //     continue;
+        // Two points per pixel along the latitude line.
+        auto const imax =
+            static_cast<std::size_t>(std::ceil(2 * C::_2pi * rho)) + 1;
 
-            double const k = std::round(z / pix_conv_val + lines / 2.0);
-            double const i = std::round(x / pix_conv_val + samples / 2.0);
+        for (std::size_t m = 0; m < imax; ++m)
+            draw(rho, static_cast<double>(m) / imax * C::_2pi);
+    }
 
-            if (i >= 0 && i < static_cast<double>(samples)
-                && k >= 0 && k < static_cast<double>(lines)) {
-                std::size_t const offset =
-                    static_cast<std::size_t>(k) * samples;
+    // Draw longitude lines.
+    for (double m = 360; m > 0; m -= lon_interval) {
+        double const mm = m * C::degree;  // Convert to radians
 
-                grid[offset + static_cast<std::size_t>(i)] = white;
-            }
-        }
+        // Longitude lines are straight lines that start at the pole.
+        for (double rho = 0; rho <= max_distance; rho += 0.5)
+            draw(rho, mm);
     }
 }
 
-- 
2.43.0


From 6962d45b8932f729f6b7f4bf578af45df7203212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:52 +0000
Subject: [PATCH 40/50] fix: no gaps in the grid of enlarged orthographic maps

The number of points drawn along each grid line was fixed, so that grid
lines fell apart when the body was much larger than the map.
---
 lib/marc/Orthographic.cpp | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lib/marc/Orthographic.cpp b/lib/marc/Orthographic.cpp
index 696d60d..08cc188 100644
--- a/lib/marc/Orthographic.cpp
+++ b/lib/marc/Orthographic.cpp
@@ -25,6 +25,30 @@
 #include <sys/types.h>
 
 
+namespace
+{
+    /**
+     * @brief Get number of points to draw along half of a grid line.
+     *
+     * Draw two points per pixel along the largest grid lines, within
+     * reason, so that there are no gaps in them when only a small area
+     * of the body is mapped.
+     *
+     * @param[in] eq_rad       Equatorial radius of the body
+     *                         (kilometers).
+     * @param[in] km_per_pixel Number of kilometers per pixel.
+     */
+    double points_per_half_circle(double eq_rad, double km_per_pixel)
+    {
+        constexpr double min_points = 1000;
+        constexpr double max_points = 500000;
+
+        return std::clamp(std::ceil(C::_2pi * eq_rad / km_per_pixel),
+                          min_points,
+                          max_points);
+    }
+}
+
 namespace MaRC
 {
     /**
@@ -433,6 +457,10 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
 {
     auto const & mp = p.parameters();
 
+    auto const imax =
+        2 * points_per_half_circle(this->body_->eq_rad(),
+                                   mp.km_per_pixel());
+
     // Draw latitude lines
     for (double n = -90; n <= 90; n += p.lat_interval()) {
         auto const nn =  n * C::degree; // Convert to radians
@@ -473,7 +501,6 @@ MaRC::Orthographic::plot_lat_lines(std::size_t samples,
 
         auto const radius = this->body_->centric_radius(nn);
 
-        constexpr double imax = 2000;
         for (double m = 0; m < imax; ++m) {
             auto mm = m / imax * C::degree * 360;
 
@@ -522,11 +549,12 @@ MaRC::Orthographic::plot_lon_lines(std::size_t samples,
 {
     auto const & mp = p.parameters();
 
+    auto const imax =
+        points_per_half_circle(this->body_->eq_rad(), mp.km_per_pixel());
+
     for (double m = 0 + p.lon_interval();
          m <= 360;
          m += p.lon_interval()) {
-        constexpr double imax = 1000;
-
         auto const mm = m * C::degree;
 
         for (double n = 0; n < imax; ++n) {
-- 
2.43.0


From 05f63528ac87a3f06ebdd074d9eabbee4abb3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 41/50] fix: warn of incorrect checksums in source files

---
 src/FITS_file.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 601d043..43da5b9 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -410,20 +410,22 @@ MaRC::FITS::input_file::input_file(char const * filename)
     int hduok  = 0;
     int status = 0;
 
-    if (fits_verify_chksum(this->fptr_.get(),
-                           &dataok,
-                           &hduok,
-                           &status) != 0) {
-        if (dataok == -1)  // Incorrect data checksum
-            MaRC::warn("Data checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-
-        if (hduok == -1)
-            MaRC::warn("Header checksum for FITS file \"{}\" "
-                       "is incorrect",
-                       filename);
-    }
+    // Incorrect checksums are not errors as far as CFITSIO's returned
+    // status is concerned.
+    fits_verify_chksum(this->fptr_.get(),
+                       &dataok,
+                       &hduok,
+                       &status);
+
+    if (dataok == -1)  // Incorrect data checksum
+        MaRC::warn("Data checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
+
+    if (hduok == -1)
+        MaRC::warn("Header checksum for FITS file \"{}\" "
+                   "is incorrect",
+                   filename);
 }
 
 void
-- 
2.43.0


From 7e99c3ba3407d19479c2af9b5450541b9156ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 42/50] fix: treat an empty XDG_CONFIG_HOME like an unset one

---
 src/marc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/marc.cpp b/src/marc.cpp
index 644e2e7..783407b 100644
--- a/src/marc.cpp
+++ b/src/marc.cpp
@@ -167,7 +167,8 @@ namespace MaRC
         char const * const config_dir = std::getenv("XDG_CONFIG_HOME");
         char const * const home_dir   = std::getenv("HOME");
 
-        if (config_dir != nullptr) {
+        // An empty XDG_CONFIG_HOME is equivalent to an unset one.
+        if (config_dir != nullptr && *config_dir != '\0') {
             filename = std::string(config_dir) + "/" PACKAGE;
         } else {
             if (home_dir == nullptr)
-- 
2.43.0


From 50d8fa4582784dcc844f600f3e48e9911b4e3070 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 43/50] fix: compile the magnitude of vectors with more than
 three rows

---
 lib/marc/details/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/marc/details/vector.h b/lib/marc/details/vector.h
index 21258a1..d6e7c17 100644
--- a/lib/marc/details/vector.h
+++ b/lib/marc/details/vector.h
@@ -43,7 +43,7 @@ namespace MaRC
         template <typename T, std::size_t M>
         auto magnitude(T const (&v)[M])
         {
-            double const m = 0;
+            double m = 0;
 
             /**
              * @bug This implementation is subject to overflow or
-- 
2.43.0


From 9a741255bcebe174be87c7b784462b34a3f4affc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:06:36 +0000
Subject: [PATCH 44/50] fix: magnitude of a negative vector with one row

---
 lib/marc/details/vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/marc/details/vector.h b/lib/marc/details/vector.h
index d6e7c17..e7c2d80 100644
--- a/lib/marc/details/vector.h
+++ b/lib/marc/details/vector.h
@@ -15,6 +15,7 @@
 #define MARC_DETAILS_VECTOR_H
 
 #include <cmath>
+#include <cstdlib>
 
 
 namespace MaRC
@@ -100,9 +101,9 @@ namespace MaRC
          * @return Magnitude of vector @a v.
          */
         template <typename T>
-        constexpr auto magnitude(T const (&v)[1])
+        auto magnitude(T const (&v)[1])
         {
-            return v[0];
+            return std::abs(v[0]);
         }
     }  // details
 }  // MaRC
-- 
2.43.0


From 5da0b82bd7c3f5a6203b3da2b62851172d397cc8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:06:37 +0000
Subject: [PATCH 45/50] fix: quadratic with both roots at zero

---
 lib/marc/Mathematics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/marc/Mathematics.h b/lib/marc/Mathematics.h
index 55569ad..e2a9a9e 100644
--- a/lib/marc/Mathematics.h
+++ b/lib/marc/Mathematics.h
@@ -195,7 +195,8 @@ namespace MaRC
             -(b + sgn(b) * std::sqrt(discriminant)) / 2;
 
         roots.first  = q / a;
-        roots.second = c / q;
+        // Both roots are zero if q is zero.
+        roots.second = (q == 0 ? roots.first : c / q);
 
         return true;
     }
-- 
2.43.0


From ad52ccf935d79bd9c4f0b3bfa28e6adcf804a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:01 +0000
Subject: [PATCH 46/50] fix: refuse images whose number of pixels overflows

The product of the dimensions of a damaged source image could wrap
around, in which case the image was read into an array that was much too
small or even empty.
---
 src/FITS_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FITS_file.cpp b/src/FITS_file.cpp
index 43da5b9..c73ff6e 100644
--- a/src/FITS_file.cpp
+++ b/src/FITS_file.cpp
@@ -466,6 +466,11 @@ MaRC::FITS::input_file::read(std::vector<double> & image,
     if (naxes[0] < mindim || naxes[1] < mindim)
         throw std::runtime_error("image dimension is too small");
 
+    // Beware of integer overflow when determining the number of
+    // elements.
+    if (naxes[1] > std::numeric_limits<LONGLONG>::max() / naxes[0])
+        throw std::runtime_error("image dimension is too large");
+
     // CFITSIO wants its own LONGLONG type, not size_t.
     LONGLONG const nelements = naxes[0] * naxes[1];
 
-- 
2.43.0


From d0c283a2e12812f486fbdd1ab342789b9a779ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:49 +0000
Subject: [PATCH 47/50] fix: merging extrema into extrema that are not set yet

Updating unset extrema from other extrema left them unset.
---
 lib/marc/extrema.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index 21e38aa..dea8236 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -182,10 +182,12 @@ namespace MaRC
              * @todo Should we validate @c e.minimum_ and
              *       @c e.maximum_ as is done in the constructor?
              */
-            if (e.minimum_ && *e.minimum_ < this->minimum_)
+            if (e.minimum_
+                && (*e.minimum_ < this->minimum_ || !this->minimum_))
                 this->minimum_ = *e.minimum_;
 
-            if (e.maximum_ && *e.maximum_ > this->maximum_)
+            if (e.maximum_
+                && (*e.maximum_ > this->maximum_ || !this->maximum_))
                 this->maximum_ = *e.maximum_;
         }
 
-- 
2.43.0


From 488de3a8b104fa1e46592bf5274f208ad628e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:49 +0000
Subject: [PATCH 48/50] fix: assignment of extrema of another type did not
 compile

---
 lib/marc/extrema.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/marc/extrema.h b/lib/marc/extrema.h
index dea8236..2bd8855 100644
--- a/lib/marc/extrema.h
+++ b/lib/marc/extrema.h
@@ -95,9 +95,10 @@ namespace MaRC
          * @param[in] rhs Extrema to be copied.
          */
         template <typename U>
-        extrema & operator=(extrema<U> rhs)
+        extrema & operator=(extrema<U> const & rhs)
         {
-            this->swap(rhs);
+            extrema tmp(rhs);
+            this->swap(tmp);
 
             return *this;
         }
-- 
2.43.0


From dea8e776261be6a94625895b04041c357e55e19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:49 +0000
Subject: [PATCH 49/50] fix: clip map data extrema at both ends of the data
 type

A minimum above or a maximum below the range of an integer type, and the
largest 64 bit integer, were converted to arbitrary values.
---
 lib/marc/Map_traits.h | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/lib/marc/Map_traits.h b/lib/marc/Map_traits.h
index 31cd15f..710686f 100644
--- a/lib/marc/Map_traits.h
+++ b/lib/marc/Map_traits.h
@@ -79,10 +79,7 @@ namespace MaRC
          */
         static T minimum(double m)
         {
-            constexpr double type_min = std::numeric_limits<T>::lowest();
-
-            // Return the larger of the two minimums.
-            return std::max(m, type_min);
+            return clip(m);
         }
 
         /**
@@ -103,10 +100,33 @@ namespace MaRC
          */
         static T maximum(double m)
         {
-            constexpr double type_max = std::numeric_limits<T>::max();
+            return clip(m);
+        }
+
+    private:
+
+        /**
+         * @brief Clip value to the map data type range.
+         *
+         * Converting a floating point value beyond either end of the
+         * range of an integer type is undefined behavior.
+         *
+         * @param[in] m Value to be clipped.
+         *
+         * @return Value within the range of the map data type.
+         */
+        static T clip(double m)
+        {
+            constexpr auto type_min = std::numeric_limits<T>::lowest();
+            constexpr auto type_max = std::numeric_limits<T>::max();
+
+            if (m <= static_cast<double>(type_min))
+                return type_min;
+
+            if (m >= static_cast<double>(type_max))
+                return type_max;
 
-            // Return the smaller of the two maximums.
-            return std::min(m, type_max);
+            return static_cast<T>(m);
         }
     };
 
-- 
2.43.0


From 7643db8ffa18d0da9490fd04e1a4738409ab485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:55 +0000
Subject: [PATCH 50/50] fix: scale and offset that fit all data into the type

Data ranges that are not symmetric (e.g. [100, 140] in 8 bits) or that fill
more than the decimal digits of the type (e.g. [0, 7] in 16 bits) were given
a scale and offset that put them outside of the type.  A range of zero
length was undefined.
---
 lib/marc/details/scale_and_offset.h | 48 +++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/lib/marc/details/scale_and_offset.h b/lib/marc/details/scale_and_offset.h
index fb4eb59..78cb819 100644
--- a/lib/marc/details/scale_and_offset.h
+++ b/lib/marc/details/scale_and_offset.h
@@ -12,6 +12,7 @@
 #ifndef MARC_DETAILS_SCALE_AND_OFFSET_H
 #define MARC_DETAILS_SCALE_AND_OFFSET_H
 
+#include <algorithm>
 #include <limits>
 #include <cmath>
 #include <type_traits>
@@ -110,20 +111,41 @@ namespace MaRC
                     return false;
                 }
 
-                int const exponent =
-                    static_cast<int>(std::numeric_limits<T>::digits10)
-                    - static_cast<int>(std::log10(data_range));
-
-                scale = std::pow(10, exponent);
-
-                if (min * scale < T_lowest)
-                    offset = data_range / 2 * scale;
-                else if (max * scale > T_max)
-                    offset = -data_range / 2 * scale;
-                else
-                    offset = 0;
+                int const magnitude =
+                    data_range > 0
+                    ? static_cast<int>(std::log10(data_range))
+                    : 0;
+
+                int exponent =
+                    std::max(std::numeric_limits<T>::digits10 - magnitude,
+                             0);
+
+                // Find the largest scale for which the data fits.
+                for (; exponent >= 0; --exponent) {
+                    scale = std::pow(10, exponent);
+
+                    /*
+                      Leave the data where it is if possible.
+                      Otherwise shift it to the middle of the range of
+                      a signed type, and to the beginning of the range
+                      of any type.
+                    */
+                    double const offsets[] = {
+                        0,
+                        -(min + data_range / 2) * scale,
+                        T_lowest - min * scale
+                    };
+
+                    for (auto const o : offsets) {
+                        if (min * scale + o >= T_lowest
+                            && max * scale + o <= T_max) {
+                            offset = o;
+                            return true;
+                        }
+                    }
+                }
 
-                return true;
+                return false;
             }
         };
 
-- 
2.43.0

