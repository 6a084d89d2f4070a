From a44c86e3adf21beedc339bbaa4fbbcb6dcd2bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 01/17] fix: converting an RGB color to XYZ no longer
 linearises the caller's color

---
 ColorMagic/manipulation/color_converter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index c1c087b..a9bdbdd 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -213,9 +213,10 @@ color_space::hcy* color_manipulation::color_converter::rgb_deep_to_hcy(color_spa
 
 color_space::xyz* color_manipulation::color_converter::rgb_deep_to_xyz(color_space::rgb_deepcolor* color)
 {
-	color->do_inverse_gamma_correction();
+	color_space::rgb_deepcolor linear_color(*color); // keep the input color untouched
+	linear_color.do_inverse_gamma_correction();
 
-	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* color->get_component_vector();
+	auto xyz_components = color->get_rgb_color_space()->get_transform_matrix()* linear_color.get_component_vector();
 	return new color_space::xyz(xyz_components[0], xyz_components[1], xyz_components[2], color->alpha(), color->get_rgb_color_space());
 }
 
-- 
2.43.0


From 000991227876fa5b9fb658db5b42ef8c73e2f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 02/17] fix: HSL adjustments returning a new color no longer
 change an HSL input

---
 ColorMagic/manipulation/color_adjustments.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/manipulation/color_adjustments.cpp b/ColorMagic/manipulation/color_adjustments.cpp
index 815adbe..5e019c4 100644
--- a/ColorMagic/manipulation/color_adjustments.cpp
+++ b/ColorMagic/manipulation/color_adjustments.cpp
@@ -30,9 +30,10 @@ color_space::color_base * color_manipulation::color_adjustments::saturate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->saturation(color_hsl->saturation() * factor);
+	auto result_hsl = new color_space::hsl(*color_hsl); // color_hsl is the input color itself if that is a hsl color
+	result_hsl->saturation(color_hsl->saturation() * factor);
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(result_hsl, color->get_color_type());
 }
 
 void color_manipulation::color_adjustments::luminate_in_rgb_space(color_space::color_base & color, float percentage)
@@ -64,7 +65,8 @@ color_space::color_base * color_manipulation::color_adjustments::luminate_in_hsl
 	auto color_hsl = static_cast<color_space::hsl*>(color_manipulation::color_converter::convertTo(color, color_type::HSL));
 
 	auto factor = 1.f + percentage;
-	color_hsl->lightness(color_hsl->lightness() * factor);
+	auto result_hsl = new color_space::hsl(*color_hsl); // color_hsl is the input color itself if that is a hsl color
+	result_hsl->lightness(color_hsl->lightness() * factor);
 
-	return color_manipulation::color_converter::convertTo(color_hsl, color->get_color_type());
+	return color_manipulation::color_converter::convertTo(result_hsl, color->get_color_type());
 }
-- 
2.43.0


From b2b53093c18def4ea431d6afbef4196e1c02f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 03/17] fix: matrix assignment and resize leave the matrix
 unchanged when they run out of memory

---
 ColorMagic/utils/matrix.h | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 199565c..caccadd 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -131,19 +131,10 @@ public:
 		int new_rows = other.rows();
 		int new_cols = other.columns();
 
-		m_values.resize(new_rows);
-		for (int i = 0; i < m_values.size(); i++)
-		{
-			m_values[i].resize(new_cols);
-		}
+		// Copy first, so that a failing allocation leaves this matrix as it was.
+		std::vector<std::vector<T>> new_values = other.values();
 
-		for (int i = 0; i < new_rows; i++)
-		{
-			for (int j = 0; j < new_cols; j++)
-			{
-				m_values[i][j] = other(i, j);
-			}
-		}
+		m_values.swap(new_values);
 		m_rows = new_rows;
 		m_columns = new_cols;
 
@@ -530,11 +521,12 @@ public:
 	*/
 	matrix<T>& resize(int new_row_count, int new_col_count, T fill_value = 0)
 	{
-		// resize the matrix.
-		m_values.resize(new_row_count);
+		// resize a copy of the values, so that a failing allocation leaves this matrix as it was.
+		std::vector<std::vector<T>> new_values = m_values;
+		new_values.resize(new_row_count);
 		for (int i = 0; i < new_row_count; ++i)
 		{
-			m_values[i].resize(new_col_count);
+			new_values[i].resize(new_col_count);
 		}
 
 		// fill new entries with fill_value
@@ -544,12 +536,13 @@ public:
 			{
 				if (row >= m_rows || col >= m_columns)
 				{
-					m_values[row][col] = fill_value;
+					new_values[row][col] = fill_value;
 				}
 			}
 		}
 
-		// update m_rows and m_columns
+		// update m_values, m_rows and m_columns
+		m_values.swap(new_values);
 		m_rows = new_row_count;
 		m_columns = new_col_count;
 
-- 
2.43.0


From 929b36ab1acc036d8be1a49766dadbd61e1148a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 04/17] fix: a failing set_white_point leaves the color space
 definition unchanged

---
 ColorMagic/spaces/rgb_color_space_definition.h | 8 ++++++--
 ColorMagic/utils/matrix.h                      | 9 +++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/rgb_color_space_definition.h b/ColorMagic/spaces/rgb_color_space_definition.h
index d5f2e3f..a470294 100644
--- a/ColorMagic/spaces/rgb_color_space_definition.h
+++ b/ColorMagic/spaces/rgb_color_space_definition.h
@@ -176,9 +176,13 @@ namespace color_space
 		//! Set a new white point.
 		void set_white_point(white_point* new_white_point)
 		{
+			// Calculate both matrices first, so that a failing allocation leaves this definition as it was.
+			auto new_transform_matrix = calculate_transformation_matrix(m_red, m_green, m_blue, new_white_point->get_tristimulus());
+			auto new_inverse_transform_matrix = new_transform_matrix.invert();
+
 			m_white = new_white_point;
-			m_transform_matrix = calculate_transformation_matrix(m_red, m_green, m_blue, m_white->get_tristimulus());
-			m_inverse_transform_matrix = m_transform_matrix.invert();
+			m_transform_matrix.swap(new_transform_matrix);
+			m_inverse_transform_matrix.swap(new_inverse_transform_matrix);
 		}
 
 		//! Access the matrix to transform from rgb space to xyz.
diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index caccadd..e1151eb 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <utility>
 
 template <typename T> class matrix
 {
@@ -549,6 +550,14 @@ public:
 		return *this;
 	}
 
+	//! Exchange the contents of two matrices. Never throws.
+	void swap(matrix<T>& other) noexcept
+	{
+		m_values.swap(other.m_values);
+		std::swap(m_rows, other.m_rows);
+		std::swap(m_columns, other.m_columns);
+	}
+
 	//! Check if all values in the given row are 0.
 	bool is_row_null(int row_index)
 	{
-- 
2.43.0


From 91436b08ea3a6ae5afb1e5f55737c41bbd5e5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 05/17] fix: a failing gamma assignment leaves the gamma curves
 unchanged

---
 ColorMagic/spaces/gamma.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 02dcbc5..3549ea7 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -200,8 +200,11 @@ namespace color_space
 		{
 			if (this != &other)
 			{
-				m_gamma_curve_parts = other.get_gamma_curve_parts();
-				m_inverse_gamma_curve_parts = other.get_inverse_gamma_curve_parts();
+				// Copy both lists first, so that a failing allocation leaves this object as it was.
+				auto new_gamma_curve_parts = other.get_gamma_curve_parts();
+				auto new_inverse_gamma_curve_parts = other.get_inverse_gamma_curve_parts();
+				m_gamma_curve_parts.swap(new_gamma_curve_parts);
+				m_inverse_gamma_curve_parts.swap(new_inverse_gamma_curve_parts);
 				sort_gamma_parts();
 				sort_inverse_gamma_parts();
 			}
-- 
2.43.0


From efc4c1c2e5fd6c91f8f3f45b892e61fe5eb9c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 06/17] fix: a throwing gamma function no longer leaves a color
 half corrected

---
 ColorMagic/spaces/color_base.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/spaces/color_base.h b/ColorMagic/spaces/color_base.h
index 074bd2a..4d3188e 100644
--- a/ColorMagic/spaces/color_base.h
+++ b/ColorMagic/spaces/color_base.h
@@ -220,10 +220,12 @@ namespace color_space
 		*/
 		void do_gamma_correction()
 		{
-			for (size_t i = 0; i < m_component_vector.size(); ++i)
+			auto corrected = m_component_vector; // a gamma function that throws leaves this color as it was
+			for (size_t i = 0; i < corrected.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->gamma_correction(m_component_vector[i]), m_max, m_min);
+				corrected[i] = clamp(m_rgb_color_space->get_gamma_curve()->gamma_correction(corrected[i]), m_max, m_min);
 			}
+			m_component_vector.swap(corrected);
 		}
 
 		//! Does the inverse gamma correction for each component of this color.
@@ -232,10 +234,12 @@ namespace color_space
 		*/
 		void do_inverse_gamma_correction()
 		{
-			for (size_t i = 0; i < m_component_vector.size(); ++i)
+			auto corrected = m_component_vector; // a gamma function that throws leaves this color as it was
+			for (size_t i = 0; i < corrected.size(); ++i)
 			{
-				m_component_vector[i] = clamp(m_rgb_color_space->get_gamma_curve()->inverse_gamma_correction(m_component_vector[i]), m_max, m_min);
+				corrected[i] = clamp(m_rgb_color_space->get_gamma_curve()->inverse_gamma_correction(corrected[i]), m_max, m_min);
 			}
+			m_component_vector.swap(corrected);
 		}
 
 	protected:
-- 
2.43.0


From d91d035d3477f123fa435481873e7e2aff159526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 07/17] fix: matrix index errors no longer read past the end of
 their message

---
 ColorMagic/utils/matrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index e1151eb..49475d2 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -6,6 +6,7 @@
 #pragma once
 #include <vector>
 #include <stdexcept>
+#include <string>
 #include <utility>
 
 template <typename T> class matrix
@@ -111,16 +112,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is >= row count of matrix.");
+		if (column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is >= column count of matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range(std::string("Matrix: %d is >= row count of matrix.", row));
-		if (column >= m_columns) throw std::out_of_range(std::string("Matrix: %d is >= column count of matrix.", column));
+		if (row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is >= row count of matrix.");
+		if (column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is >= column count of matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From a3c9b90e8cfed4d7572d610ed4bafd62144fc5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 08/17] fix: hex codes with a '#' in the middle are rejected
 instead of giving random channels

---
 ColorMagic/spaces/rgb_truecolor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ColorMagic/spaces/rgb_truecolor.cpp b/ColorMagic/spaces/rgb_truecolor.cpp
index ec9f2ca..3d03c64 100644
--- a/ColorMagic/spaces/rgb_truecolor.cpp
+++ b/ColorMagic/spaces/rgb_truecolor.cpp
@@ -21,7 +21,7 @@ color_space::rgb_truecolor::rgb_truecolor(float r, float g, float b, float alpha
 
 color_space::rgb_truecolor::rgb_truecolor(std::string hex_code, rgb_color_space_definition* color_space) : color_base(0, color_space, 3, 255.f, 0.f)
 {
-	std::regex regex("^[#0-9A-Fa-f]+$");
+	std::regex regex("^#?[0-9A-Fa-f]+$");
 
 	if (!std::regex_match(hex_code, regex))
 	{
-- 
2.43.0


From 46b73c49de4ab811b5901d39091520f6e1df17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 09/17] fix: Bradford and CMCCAT97 adaptation normalise by Y of
 the XYZ color, not by the input's second component

---
 .../manipulation/chromatic_adaptation.cpp     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ColorMagic/manipulation/chromatic_adaptation.cpp b/ColorMagic/manipulation/chromatic_adaptation.cpp
index 38720be..c3981d9 100644
--- a/ColorMagic/manipulation/chromatic_adaptation.cpp
+++ b/ColorMagic/manipulation/chromatic_adaptation.cpp
@@ -119,9 +119,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Convert to XYZ space and transform using bradford matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_bradford * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= tmp_color->get_component_vector()[1];
+	rgb_comp[1] /= tmp_color->get_component_vector()[1];
+	rgb_comp[2] /= tmp_color->get_component_vector()[1];
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -140,11 +140,11 @@ color_space::color_base * color_manipulation::chromatic_adaptation::bradford_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> tmp_rgb_comp;
-	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * color->get_component_vector()[1]);
-	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[0] * (rgb_comp[0] / scaled_source_wp[0])) * tmp_color->get_component_vector()[1]);
+	tmp_rgb_comp.push_back((scaled_dest_wp[1] * (rgb_comp[1] / scaled_source_wp[1])) * tmp_color->get_component_vector()[1]);
 
 	float div = rgb_comp[2] / scaled_source_wp[2];
-	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * color->get_component_vector()[1]); // avoid overflow of float
+	tmp_rgb_comp.push_back((scaled_dest_wp[2] * powf(fabsf(div), p)) * tmp_color->get_component_vector()[1]); // avoid overflow of float
 	if (div < 0.f) tmp_rgb_comp[2] *= -1.f;
 
 	auto transformed_components = m_inverted_bradford * tmp_rgb_comp;
@@ -206,9 +206,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Convert to XYZ space and transform using cmccat97 matrix (incl. normalization)
 	auto tmp_color = color_manipulation::color_converter::to_xyz(color);
 	auto rgb_comp = m_cmccat97 * tmp_color->get_component_vector();
-	rgb_comp[0] /= color->get_component_vector()[1];
-	rgb_comp[1] /= color->get_component_vector()[1];
-	rgb_comp[2] /= color->get_component_vector()[1];
+	rgb_comp[0] /= tmp_color->get_component_vector()[1];
+	rgb_comp[1] /= tmp_color->get_component_vector()[1];
+	rgb_comp[2] /= tmp_color->get_component_vector()[1];
 
 	// Create scaled white point vectors (incl. normalization)
 	std::vector<float> source_wp = std::vector<float>();
@@ -232,9 +232,9 @@ color_space::color_base * color_manipulation::chromatic_adaptation::cmccat97_ada
 	// Adapt color (incl. undo of normalization)
 	auto p = powf(scaled_source_wp[2] / scaled_dest_wp[2], 0.0834f);
 	std::vector<float> rgbc;
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
-	rgbc.push_back(color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
+	rgbc.push_back(tmp_color->get_component_vector()[1] * (rgb_comp[0] * (d * (scaled_dest_wp[0] / scaled_source_wp[0]) + 1.f - d)));
+	rgbc.push_back(tmp_color->get_component_vector()[1] * (rgb_comp[1] * (d * (scaled_dest_wp[1] / scaled_source_wp[1]) + 1.f - d)));
+	rgbc.push_back(tmp_color->get_component_vector()[1] * (powf(fabsf(rgb_comp[2]), p) * (d * (scaled_dest_wp[2] / powf(scaled_source_wp[2], p)) + 1.f - d)));
 
 	if (rgb_comp[2] < 0.f) rgbc[2] *= -1.f;
 
-- 
2.43.0


From 1705c1f481f96e1f8a8760fbb548931dbcf50f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 10/17] fix: dissolve compares the opacities of both colors on
 one scale

---
 ColorMagic/manipulation/color_blend.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ColorMagic/manipulation/color_blend.cpp b/ColorMagic/manipulation/color_blend.cpp
index af82a46..a526a91 100644
--- a/ColorMagic/manipulation/color_blend.cpp
+++ b/ColorMagic/manipulation/color_blend.cpp
@@ -26,11 +26,14 @@ color_space::color_base * color_manipulation::color_blend::dissolve(color_space:
 	if (destination == nullptr) throw new std::invalid_argument("destination color is null.");
 	if (source->get_rgb_color_space() != destination->get_rgb_color_space()) throw new std::invalid_argument("The rgb color space definitions of both colors do not match.");
 
-	float source_dest_alpha_diff = source->alpha() - destination->alpha();
+	// Compare the alpha values in rgb deep space, since true color spaces use another alpha range.
+	auto source_rgb_deep = color_converter::to_rgb_deep(source);
+	auto destination_rgb_deep = color_converter::to_rgb_deep(destination);
+	float source_dest_alpha_diff = source_rgb_deep->alpha() - destination_rgb_deep->alpha();
 	return color_converter::convertTo(
 		(new color_blend())->general_porter_duff(
-			color_converter::to_rgb_deep(source),
-			color_converter::to_rgb_deep(destination),
+			source_rgb_deep,
+			destination_rgb_deep,
 			use_source_region,
 			use_destination_region,
 			true,
-- 
2.43.0


From 8b63ac59f341c16f2a7d5aa619dcfd70d1957ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 11/17] fix: removing a gamma part returns a value instead of
 running off the end of the function

---
 ColorMagic/spaces/gamma.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 3549ea7..719165e 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -288,7 +288,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of default gamma parts
 		bool remove_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
+			if (position == m_gamma_curve_parts.end()) return false;
+
 			m_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of default gamma parts.
@@ -311,7 +314,10 @@ namespace color_space
 		//! Remove the given gamma function from the list of inverse gamma parts
 		bool remove_inverse_gamma_curve_part(std::vector<gamma_part*>::iterator position)
 		{
+			if (position == m_inverse_gamma_curve_parts.end()) return false;
+
 			m_inverse_gamma_curve_parts.erase(position);
+			return true;
 		}
 
 		//! Replace the list of inverse gamma parts.
-- 
2.43.0


From d0794ab8f9f35e09694363f752043423730d5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 12/17] fix: convertTo handles LCH_ab and LCH_uv, so in-place
 adjustments of LCH colors no longer crash

---
 ColorMagic/manipulation/color_converter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ColorMagic/manipulation/color_converter.cpp b/ColorMagic/manipulation/color_converter.cpp
index a9bdbdd..09b395e 100644
--- a/ColorMagic/manipulation/color_converter.cpp
+++ b/ColorMagic/manipulation/color_converter.cpp
@@ -33,6 +33,10 @@ color_space::color_base* color_manipulation::color_converter::convertTo(color_sp
 		return color_manipulation::color_converter::to_cieluv(in_color);
 	case color_type::LAB:
 		return color_manipulation::color_converter::to_lab(in_color);
+	case color_type::LCH_AB:
+		return color_manipulation::color_converter::to_lch_ab(in_color);
+	case color_type::LCH_UV:
+		return color_manipulation::color_converter::to_lch_uv(in_color);
 	default:
 		return nullptr;
 	}
-- 
2.43.0


From 5a90a734098f7e8abe788fc6ae11448ea64fc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 13/17] fix: insert, transpose and products of non-square
 matrices stay inside their storage

---
 ColorMagic/utils/matrix.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index 49475d2..d96084d 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -206,7 +206,7 @@ public:
 	//! Multiply two matrices
 	matrix<T> operator*(const matrix<T>& other)
 	{
-		int rows = other.rows();
+		int rows = m_rows;
 		int cols = other.columns();
 		matrix result(rows, cols);
 
@@ -214,7 +214,7 @@ public:
 		{
 			for (int j = 0; j < cols; j++)
 			{
-				for (int k = 0; k < rows; k++)
+				for (int k = 0; k < m_columns; k++)
 				{
 					result(i, j) += this->m_values[i][k] * other(k, j);
 				}
@@ -303,7 +303,9 @@ public:
 	*/
 	std::vector<T> operator*(const std::vector<T>& other)
 	{
-		std::vector<T> result(other.size());
+		if (other.size() < m_columns) throw std::out_of_range("Matrix: The vector has fewer elements than the matrix has columns.");
+
+		std::vector<T> result(m_rows);
 
 		for (int i = 0; i < m_rows; i++)
 		{
@@ -336,11 +338,11 @@ public:
 	*/
 	matrix<T> transpose()
 	{
-		matrix result(m_rows, m_columns);
+		matrix result(m_columns, m_rows);
 
-		for (int i = 0; i < m_rows; i++)
+		for (int i = 0; i < m_columns; i++)
 		{
-			for (int j = 0; j < m_columns; j++)
+			for (int j = 0; j < m_rows; j++)
 			{
 				result(i, j) = this->m_values[j][i];
 			}
@@ -506,7 +508,7 @@ public:
 			{
 				for (int j = 0; j < m_columns; j++)
 				{
-					this->m_values[i][j] = values[i * m_rows + j];
+					this->m_values[i][j] = values[i * m_columns + j];
 				}
 			}
 		}
-- 
2.43.0


From 504e964d21312e424de197c54c7f50316a61af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 14/17] fix: negative matrix indices are rejected like too
 large ones

---
 ColorMagic/utils/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index d96084d..c0ed903 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -112,16 +112,16 @@ public:
 	//! Accessment operator
 	T& operator() (int row, int column)
 	{
-		if (row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is >= row count of matrix.");
-		if (column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is >= column count of matrix.");
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is < 0 or >= row count of matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is < 0 or >= column count of matrix.");
 		return m_values[row][column];
 	}
 
 	//! Accessment operator
 	const T& operator() (int row, int column) const
 	{
-		if (row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is >= row count of matrix.");
-		if (column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is >= column count of matrix.");
+		if (row < 0 || row >= m_rows) throw std::out_of_range("Matrix: " + std::to_string(row) + " is < 0 or >= row count of matrix.");
+		if (column < 0 || column >= m_columns) throw std::out_of_range("Matrix: " + std::to_string(column) + " is < 0 or >= column count of matrix.");
 		return m_values[row][column];
 	}
 
-- 
2.43.0


From 5099fc00cbb845000f279ac026ef7a1e8b651854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 15/17] fix: sorting gamma parts accepts the null parts that
 evaluating them skips

---
 ColorMagic/spaces/gamma.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ColorMagic/spaces/gamma.h b/ColorMagic/spaces/gamma.h
index 719165e..689a7ad 100644
--- a/ColorMagic/spaces/gamma.h
+++ b/ColorMagic/spaces/gamma.h
@@ -361,13 +361,13 @@ namespace color_space
 		//! Sort the default gamma parts in ascending order depending on the upper border.
 		void sort_gamma_parts()
 		{
-			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_gamma_curve_parts.begin(), m_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! Sort the inverse gamma parts in ascending order depending on the upper border.
 		void sort_inverse_gamma_parts()
 		{
-			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return (*gp1) < (*gp2); });
+			std::sort(m_inverse_gamma_curve_parts.begin(), m_inverse_gamma_curve_parts.end(), [](gamma_part* gp1, gamma_part* gp2) { return gp1 != nullptr && (gp2 == nullptr || (*gp1) < (*gp2)); });
 		}
 
 		//! The default gamma parts in ascending order depending on their upper border.
-- 
2.43.0


From d5a1230113600012b42054f91da6b92a282b310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 16/17] fix: a failing assignment leaves the color space
 definition unchanged

---
 ColorMagic/spaces/rgb_color_space_definition.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ColorMagic/spaces/rgb_color_space_definition.h b/ColorMagic/spaces/rgb_color_space_definition.h
index a470294..f38f6b9 100644
--- a/ColorMagic/spaces/rgb_color_space_definition.h
+++ b/ColorMagic/spaces/rgb_color_space_definition.h
@@ -75,6 +75,23 @@ namespace color_space
 			m_gamma = other.get_gamma_curve();
 		}
 
+		//! Assignment operator
+		rgb_color_space_definition& operator=(const rgb_color_space_definition& other)
+		{
+			// Copy both matrices first, so that a failing allocation leaves this definition as it was.
+			auto new_transform_matrix = other.m_transform_matrix;
+			auto new_inverse_transform_matrix = other.m_inverse_transform_matrix;
+
+			m_red = other.m_red;
+			m_green = other.m_green;
+			m_blue = other.m_blue;
+			m_white = other.m_white;
+			m_transform_matrix.swap(new_transform_matrix);
+			m_inverse_transform_matrix.swap(new_inverse_transform_matrix);
+			m_gamma = other.m_gamma;
+			return *this;
+		}
+
 		//! Default deconstructor.
 		/*!
 		* Default deconstructor.
-- 
2.43.0


From 42bbf3c4f040b11b5d3808a1a8620eb12edf066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 17/17] fix: matrix row and column checks read out of bounds
 for negative indices

---
 ColorMagic/utils/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ColorMagic/utils/matrix.h b/ColorMagic/utils/matrix.h
index c0ed903..b5b953f 100644
--- a/ColorMagic/utils/matrix.h
+++ b/ColorMagic/utils/matrix.h
@@ -564,7 +564,7 @@ public:
 	//! Check if all values in the given row are 0.
 	bool is_row_null(int row_index)
 	{
-		if (row_index >= m_rows) return false;
+		if (row_index < 0 || row_index >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -576,7 +576,7 @@ public:
 	//! Check if all values in the given column are 0.
 	bool is_column_null(int col_index)
 	{
-		if (col_index >= m_columns) return false;
+		if (col_index < 0 || col_index >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
@@ -588,7 +588,7 @@ public:
 	//! Check if all values of both rows are equal.
 	bool are_rows_equal(int row1, int row2)
 	{
-		if (row1 >= m_rows || row2 >= m_rows) return false;
+		if (row1 < 0 || row2 < 0 || row1 >= m_rows || row2 >= m_rows) return false;
 
 		for (int i = 0; i < m_columns; ++i)
 		{
@@ -600,7 +600,7 @@ public:
 	//! Check if all values of both columns are equal.
 	bool are_columns_equal(int col1, int col2)
 	{
-		if (col1 >= m_columns || col2 >= m_columns) return false;
+		if (col1 < 0 || col2 < 0 || col1 >= m_columns || col2 >= m_columns) return false;
 
 		for (int i = 0; i < m_rows; ++i)
 		{
-- 
2.43.0

