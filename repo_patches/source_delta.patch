From 73ae76f7c719206a694e6d6744cee9af9597e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 01/55] fix: distance between locations uses the haversine
 formula

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..313acc6 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powi(2)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powi(2);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From 3add087a80c387fdf8b3a4beb26d9dde9e0aa8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 02/55] fix: bounding boxes may cross the prime meridian or the
 antimeridian

---
 src/location.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 313acc6..630b4a4 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,12 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        // Longitudes are compared by how far east of the western edge they lie, so that
+        // boxes may cross the prime meridian or the antimeridian in either notation
+        let west = absolute_longitude(bbox.0);
+        let east_of_west = |longitude: f64| (absolute_longitude(longitude) - west).rem_euclid(360.0);
+        let within_lng = bbox.2 - bbox.0 >= 360.0
+            || east_of_west(self.longitude) <= east_of_west(bbox.2);
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 925fa51f98b51f2112d39e42949e33e3d4b622f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 03/55] fix: Fahrenheit to Celsius and Kelvin offset

---
 src/units/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a1a54df 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
@@ -184,7 +184,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 45fa76369f0a767de8004d7d44851827f561e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 04/55] fix: speed conversions are inverse to each other

---
 src/units/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a1a54df..5b9dc4b 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -166,7 +166,7 @@ impl Unit {
             },
             Unit::MilesPerHour => match target {
                 Unit::MetersPerSecond => value / 2.237,
-                Unit::Knots => value / 1.15,
+                Unit::Knots => value * 1.944 / 2.237,
                 _ => value,
             },
             Unit::Fahrenheit => match target {
@@ -179,8 +179,8 @@ impl Unit {
                 _ => value,
             },
             Unit::Knots => match target {
-                Unit::MetersPerSecond => value * 0.514,
-                Unit::MilesPerHour => value * 1.15,
+                Unit::MetersPerSecond => value / 1.944,
+                Unit::MilesPerHour => value * 2.237 / 1.944,
                 _ => value,
             },
             Unit::Kelvin => match target {
-- 
2.43.0


From 314950b46284e962b2c450a1af6a1feae1a99c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 05/55] fix: bearings from radians are rounded, not truncated

---
 src/units/direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/direction.rs b/src/units/direction.rs
index 2ca3e4c..a303af2 100644
--- a/src/units/direction.rs
+++ b/src/units/direction.rs
@@ -48,7 +48,7 @@ impl Direction {
     }
 
     pub fn from_radians(radians: f64) -> Direction {
-        let degrees = radians.to_degrees() as i32;
+        let degrees = radians.to_degrees().round() as i32;
         Direction {
             direction: CardinalDirection::from_degrees(&degrees),
             degrees,
-- 
2.43.0


From 8f5157c6b5de9d9d66672fdc39757d01311fedd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 06/55] fix: average period and mean direction of a wave record
 are read from their own columns

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 303722fdbf7041eced68e8dc1ffa69361af54b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 07/55] fix: malformed rows of a wave summary are errors, not
 panics

---
 src/data/wave_data_record.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..f835a41 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -31,16 +31,21 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From 3bc8211e41139e926077de9b5710d2e40830cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 08/55] fix: steepness AVERAGE is recognised as it is written
 in the data

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From b733b8874ac617dc9901daca0a404383bb7308cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 09/55] fix: short rows and impossible dates of buoy spectra
 are errors

---
 src/data/spectral_wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..e992a94 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -26,7 +26,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
             true => 6,
             false => 5,
         };
-        if row.len() < start_index {
+        if row.len() < start_index + 2 {
             return Err(DataRecordParsingError::ParseFailure(
                 "Invalid Spectral Wave record: not enough rows parsed".to_string(),
             ));
@@ -60,7 +60,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
             .single()
-            .unwrap();
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(SpectralWaveDataRecord {
             date,
-- 
2.43.0


From 62015b0caa05e2d2d717b47095060a447587e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 10/55] fix: short rows of a GRIB inventory are errors, not
 panics

---
 src/data/grib_index_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
-- 
2.43.0


From 7ae3b9e9a1308f50340305a44408d088ad6d4f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 11/55] fix: wave bulletins roll over into January, and
 impossible dates are errors

---
 src/data/forecast_cbulletin_wave_data_record.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..6b1f156 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -152,15 +152,16 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
-        } else {
-            model_date.month()
+        let (year, month) = match (model_date.day() > day, model_date.month()) {
+            (true, 12) => (model_date.year() + 1, 1),
+            (true, month) => (model_date.year(), month + 1),
+            (false, month) => (model_date.year(), month),
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
-            .unwrap();
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From 2045f3d3f5837bd24680fd64c70cae0cd804624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 12/55] fix: malformed lines of a wave bulletin are errors, not
 panics

---
 .../forecast_cbulletin_wave_data_record.rs    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 6b1f156..6cbf82b 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -105,10 +105,9 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
                     })?;
                 let minute = 0;
 
-                let d = Utc
-                    .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
-                Ok(d)
+                Utc.with_ymd_and_hms(year, month, day, hour, minute, 0)
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)
             }
             None => Err(DataRecordParsingError::ParseFailure(
                 "Failed to capture model run date from regex".into(),
@@ -139,11 +138,18 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
-        let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        // A time step and a height followed by height, period and direction of each swell
+        if row.len() < 2 || row.len() % 3 != 2 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let (day, hour) = row[0]
+            .split_at_checked(2)
+            .ok_or(DataRecordParsingError::InvalidData)?;
+        let day = day.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = hour.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
-- 
2.43.0


From d22e46fcd7578f55c2aa7964585cbda0e6a9bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 13/55] fix: the swell summary of a bulletin line without
 swells is an error, not a panic

---
 src/data/forecast_cbulletin_wave_data_record.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 6cbf82b..748bb5e 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -217,7 +217,9 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self.swell_components.first().cloned().ok_or(
+            crate::swell::SwellProviderError::InsufficientData("no swell components".into()),
+        )?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From 3b7c860480a78e8915ccc8b6ea30fd7fd574ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 14/55] fix: the energy of bulletin swells is computed from
 metres

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 748bb5e..c4cb0f2 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -191,7 +191,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From 8ef823fc6c2f7139710bec9f9abf1a243e0e7b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 15/55] fix: a stray quote in a data file does not swallow the
 lines after it

---
 src/data/forecast_cbulletin_wave_data_record.rs | 1 +
 src/data/grib_index_record.rs                   | 1 +
 src/data/spectral_wave_data_record.rs           | 1 +
 src/data/wave_data_record.rs                    | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index c4cb0f2..bf03a51 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -274,6 +274,7 @@ impl<'a> ForecastCBulletinWaveRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         ForecastCBulletinWaveRecordCollection { data, reader }
diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index 265ee43..b410890 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -65,6 +65,7 @@ impl<'a> GribIndexRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         GribIndexRecordCollection { reader }
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e992a94..beb3d07 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -90,6 +90,7 @@ impl<'a> SpectralWaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         SpectralWaveDataRecordCollection { reader }
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index f835a41..ea4e2d6 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -156,6 +156,7 @@ impl<'a> WaveDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         WaveDataRecordCollection { reader }
-- 
2.43.0


From 1be0f076a27351084354246ed829a64195bfe37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 16/55] fix: spectral forecast headers may announce more than
 99 frequencies or directions

---
 src/data/forecast_spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..4f91155 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -31,7 +31,7 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let header_regex =
-            Regex::new("'WAVEWATCH III SPECTRA'\\s*([0-9]{0,2})\\s*([0-9]{0,2})\\s*([0-9]{0,2})");
+            Regex::new("'WAVEWATCH III SPECTRA'\\s*([0-9]{1,3})\\s+([0-9]{1,3})\\s+([0-9]{1,3})");
         let header_regex = header_regex.map_err(|e| {
             DataRecordParsingError::ParseFailure(format!(
                 "Failed to create metadata header regex: {}",
-- 
2.43.0


From f2db51f0479d736bbbc27d0cfb0d9ac9ca337b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 17/55] fix: malformed dates of a spectral forecast are errors,
 not panics

---
 .../forecast_spectral_wave_data_record.rs     | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 4f91155..7143ad9 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -257,29 +257,36 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
+        let part = |range: std::ops::Range<usize>| {
+            line.get(range).ok_or(DataRecordParsingError::ParseFailure(
+                "Date line is too short".into(),
+            ))
+        };
+
+        let year = part(0..4)?.parse::<i32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
         })?;
 
-        let month = line[4..6].parse::<u32>().map_err(|e| {
+        let month = part(4..6)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
         })?;
 
-        let day = line[6..8].parse::<u32>().map_err(|e| {
+        let day = part(6..8)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
         })?;
 
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
+        let hour = part(9..11)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
         })?;
 
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
+        let minute = part(11..13)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
         })?;
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
-- 
2.43.0


From 490018dd9b57b847bc6d049ae0b449b8d7d04998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 18/55] fix: an unreadable energy does not shift the values
 after it

---
 src/data/forecast_spectral_wave_data_record.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 7143ad9..3f578d9 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -378,16 +378,24 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let mut raw_energy: Vec<f64> =
             Vec::with_capacity(self.metadata.frequency.len() * self.metadata.direction.len());
 
+        // The whole step is consumed before an unreadable value is reported, so that neither
+        // the rest of this step nor the next step is shifted
+        let mut invalid_energy = None;
         while raw_energy.len() < energy_count {
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
             line.split_whitespace().map(f64::from_str).for_each(|v| {
-                if let Ok(v) = v {
-                    raw_energy.push(v);
-                }
+                raw_energy.push(v.unwrap_or_else(|e| {
+                    invalid_energy = Some(e);
+                    f64::NAN
+                }));
             });
         }
 
+        if let Some(e) = invalid_energy {
+            return Err(DataRecordParsingError::from(e));
+        }
+
         //let mut energy = vec![0.0; raw_energy.len()];
         //transpose::transpose(&raw_energy, &mut energy, self.metadata.direction.len(), self.metadata.frequency.len());
 
-- 
2.43.0


From 2541d74aef723aa185a64a305862c3f275203678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 19/55] fix: tidal records can be read back from the JSON they
 are written as

---
 src/data/tidal_data_record.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/tidal_data_record.rs b/src/data/tidal_data_record.rs
index d923728..df4cfdb 100644
--- a/src/data/tidal_data_record.rs
+++ b/src/data/tidal_data_record.rs
@@ -27,8 +27,11 @@ where
     D: Deserializer<'de>,
 {
     let s: String = Deserialize::deserialize(deserializer)?;
-    let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
-    Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))
+    match NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M") {
+        Ok(naive) => Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc)),
+        // The form these records are serialized in
+        Err(e) => s.parse().map_err(|_| de::Error::custom(e)),
+    }
 }
 
 fn tidal_value_f64<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
-- 
2.43.0


From 9e68c1488dcebac1a8b9b4ec03fdf42280b536df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 20/55] fix: wind ranges keep their unit and a wind without
 unit does not panic

---
 src/data/nws_weather_forecast_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..676d2ba 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -96,7 +96,10 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
             wind_speed: DimensionalData::from_raw_data(
                 wind_speed_parts[0],
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                // The unit follows the last number: "10 mph", "5 to 10 mph"
+                wind_speed_parts[1..]
+                    .last()
+                    .map_or(Unit::Unknown, |unit| Unit::from(*unit)),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From 5e9dd9d22f62674c537f316d98f3404b47735ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 21/55] fix: weather forecasts with missing (null) measurements
 can be read

---
 src/data/nws_weather_forecast_data_record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index 676d2ba..df032ea 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -31,7 +31,7 @@ impl NwsGridPointData {
 #[serde(rename_all = "camelCase")]
 struct WMODataField {
     unit_code: String,
-    value: f64,
+    value: Option<f64>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -84,12 +84,12 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.temperature_unit.as_str()),
             },
             dewpoint: DimensionalData {
-                value: Some(data.dewpoint.value),
+                value: data.dewpoint.value,
                 variable_name: "dewpoint".to_string(),
                 unit: Unit::from(data.dewpoint.unit_code.as_str()),
             },
             humidity: DimensionalData {
-                value: Some(data.relative_humidity.value),
+                value: data.relative_humidity.value,
                 variable_name: "humidity".to_string(),
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
-- 
2.43.0


From 3cab9a0787e0dc3c1aec97ad6e206b74517b67c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 22/55] fix: the lower left neighbor of a grid cell is not the
 lower one

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..4504c00 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From 006f43bac1ef9515d7666e88c5672b0a2d01621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 23/55] fix: boundary bins may join their first neighbor's
 partition

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 4504c00..57a923e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From 4a02e1daf95c011157b4a7a66dcfcd674808d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 24/55] fix: partitioning works with 256 levels and more

---
 src/tools/analysis.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 57a923e..2fe0417 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -248,17 +248,17 @@ pub fn watershed(
             .iter()
             .map(|v| {
                 let scaled_v = min_value + ((*v as f64) / 255.0) * range;
-                1u8.max((steps as u8).min((1.0 + (max_value - scaled_v) * fact).round() as u8))
+                1u16.max((steps as u16).min((1.0 + (max_value - scaled_v) * fact).round() as u16))
             })
-            .collect::<Vec<u8>>()
+            .collect::<Vec<u16>>()
     } else {
         data.iter()
-            .map(|v| 1u8.max((steps as u8).min((1.0 + (max_value - v) * fact).round() as u8)))
-            .collect::<Vec<u8>>()
+            .map(|v| 1u16.max((steps as u16).min((1.0 + (max_value - v) * fact).round() as u16)))
+            .collect::<Vec<u16>>()
     };
 
     // Sort the digitized data indices, so all levels are grouped in order
-    let ind = argsort::<u8>(&imi);
+    let ind = argsort::<u16>(&imi);
 
     // Compute the nearest neighbor for every index ahead of time
     let neigh = (0..count)
@@ -280,7 +280,7 @@ pub fn watershed(
     let mut imd = vec![0; count];
 
     // Iterate the levels looking for the watersheds
-    for ih in 1u8..=(steps as u8) {
+    for ih in 1u16..=(steps as u16) {
         m_save = m; // 0
 
         while m < count {
-- 
2.43.0


From 3c6dcc560bf909b10c3da47e407aa572a972686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 25/55] fix: the dispersion relation is w^2 h / g

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..12b8e92 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From a1e16bd3118711f788243ab60274c20c443bed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 26/55] fix: the incident angle of a swell is measured around
 the circle

---
 src/tools/waves.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 12b8e92..8574e5c 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -130,16 +130,17 @@ pub fn estimate_breaking_wave_height(
 ) -> Result<f64, Error> {
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
-    let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+    let turn =
+        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
+    let incident_angle = turn.min(360.0 - turn);
 
-    if incident_angle > 90 {
+    if incident_angle > 90.0 {
         return Err(Error::OutOfRange);
     }
 
     let (breaking_wave_height, _) = break_wave(
         *period,
-        incident_angle as f64,
+        incident_angle,
         *deep_water_wave_height,
         beach_slope,
         water_depth,
-- 
2.43.0


From b32f86ea5722ecfc44015e0268d1b7c3c8069e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 27/55] fix: every frequency is integrated over its own
 bandwidth

---
 src/tools/waves.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 8574e5c..9cf8b85 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -422,7 +422,8 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        // dsip starts one frequency below the first
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
@@ -568,7 +569,7 @@ pub fn pt_mean(
             }
         }
 
-        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len() + 1]);
+        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len()]);
         sume[ip] += sumf[frequency.len() - 1][ip] * fteii;
         sume1[ip] += sumf[frequency.len() - 1][ip] * sig[frequency.len()] * fteii * (0.3333 / 0.25);
         sume2[ip] +=
-- 
2.43.0


From 7b0ec56e9cdf695a41b9637881aa6d88eba9e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 28/55] fix: swell tracking measures direction changes across
 north

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 9cf8b85..352c65b 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -309,7 +309,7 @@ pub fn track_partitions(
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 033651c1543d83063f7b10ddf6daf24dd36293d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 29/55] fix: swell tracking survives empty time steps and never
 reuses an identity

---
 src/tools/waves.rs | 55 +++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 352c65b..112bddd 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -272,10 +272,13 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // New ids start after those of the first time step
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .filter_map(|s| s.partition)
+        .max()
+        .map_or(0, |id| id + 1);
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
@@ -288,6 +291,14 @@ pub fn track_partitions(
         })
         .collect();
 
+    // The partitions of the first time step that do not have an id get one
+    for (s, entry) in inputs[0].1.iter().zip(partition_map[0].iter_mut()) {
+        if s.partition.is_none() {
+            entry.0 = partition_count;
+            partition_count += 1;
+        }
+    }
+
     for i in 1..partition_map.len() {
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
@@ -314,36 +325,34 @@ pub fn track_partitions(
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
                         let score = if dir_delta > max_dir_delta as i32 {
-                            999.99
+                            f64::INFINITY
                         } else {
-                            (dir_delta as f64 / max_dir_delta).abs()
-                                + (period_delta / dfp_swell).abs()
+                            // Neither a zero tolerance nor a zero time step divide by zero
+                            dir_delta as f64 / max_dir_delta.abs().max(f64::EPSILON)
+                                + period_delta / dfp_swell.abs().max(f64::EPSILON)
                         }
                         .abs();
                         (icp, ipp, score)
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
-            })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
+                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
+                    // There is nothing to match after a time step without any partitions
+                    .unwrap_or((icp, usize::MAX, f64::INFINITY))
             })
+            .sorted_by(|a, b| a.2.total_cmp(&b.2))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
-                let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
+        for (icp, ipp, score) in matches {
+            let candidate = partition_map[i - 1].get(ipp).map(|(id, _)| *id);
+            match candidate {
+                Some(id) if score.is_finite() && !hit.contains(&id) => {
+                    //println!("Hit: {} score {}", ipp, score);
+                    partition_map[i][icp] = (id, score);
+                    hit.insert(id);
+                }
+                _ => {
                     partition_map[i][icp] = (partition_count, 0.0);
                     partition_count += 1;
-                } else {
-                    //println!("Hit: {} score {}", ipp, score);
-                    partition_map[i][icp] = (ipp, score);
-                    hit.insert(ipp);
                 }
             }
         }
-- 
2.43.0


From 419d2e6c528c629f1d0be38f1df090da73d9a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 30/55] fix: probable false swells are listed in order and
 directions may be missing

---
 src/swell.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..971489f 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -129,23 +129,23 @@ impl SwellSummary {
                 continue;
             }
 
-            let truth_direction = self.components[i_components[0]]
-                .direction
-                .value
-                .as_ref()
-                .unwrap();
+            let Some(truth_direction) = self.components[i_components[0]].direction.value.as_ref()
+            else {
+                continue;
+            };
 
             // Assuming sorted from max to min energy already
             for i in 1..i_components.len() {
                 let idx = i_components[i];
-                if truth_direction
-                    .is_opposite(self.components[idx].direction.value.as_ref().unwrap())
-                {
+                let direction = self.components[idx].direction.value.as_ref();
+                if direction.is_some_and(|d| truth_direction.is_opposite(d)) {
                     indexes.push(idx);
                 }
             }
         }
 
+        indexes.sort();
+
         indexes
     }
 
-- 
2.43.0


From e6208e0be186c19aff280f1c868cbf6cfa96bf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 31/55] fix: spectral lookups return the bins around a point

---
 src/spectra.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..c19f92c 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::PI;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -181,29 +183,25 @@ impl Spectra {
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
-
-        if lower == self.frequency.len() - 1 {
-            (lower, lower)
-        } else {
-            (lower, lower + 1)
+        match self.frequency.iter().rposition(|f| f.le(&freq)) {
+            Some(lower) => (lower, (lower + 1).min(self.frequency.len() - 1)),
+            None => (0, 0),
         }
     }
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
-
-        if lower == self.direction.len() - 1 {
-            // Direction wraps around cuz its a circle
-            (lower, 0)
-        } else {
-            (lower, lower + 1)
-        }
+        // Direction wraps around cuz its a circle: the bounds are the bins reached first when
+        // turning either way
+        let nearest = |turn: &dyn Fn(f64) -> f64, except: Option<usize>| {
+            (0..self.direction.len())
+                .filter(|i| Some(*i) != except)
+                .min_by(|a, b| turn(self.direction[*a]).total_cmp(&turn(self.direction[*b])))
+        };
+
+        let lower = nearest(&|d| (dir - d).rem_euclid(2.0 * PI), None).unwrap_or(0);
+        let upper = nearest(&|d| (d - dir).rem_euclid(2.0 * PI), Some(lower)).unwrap_or(lower);
+        (lower, upper)
     }
 
     pub fn energy_indices(&self) -> Vec<(usize, usize)> {
@@ -231,15 +229,19 @@ impl Spectra {
         let f1 = self.frequency[x1];
         let f2 = self.frequency[x2];
 
+        // Angles are measured from the lower bin, and bounds that coincide have no width
         let d1 = self.direction[y1];
-        let d2 = self.direction[y2];
+        let dir = (dir - d1).rem_euclid(2.0 * PI);
+        let d2 = (self.direction[y2] - d1).rem_euclid(2.0 * PI);
+        let (freq, f1, f2) = if x1 == x2 { (0.0, 0.0, 1.0) } else { (freq, f1, f2) };
+        let (dir, d2) = if y1 == y2 { (0.0, 1.0) } else { (dir, d2) };
 
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
         let c = self.energy_at(x1, y2);
         let d = self.energy_at(x2, y2);
 
-        bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &d1, &d2)
+        bilerp(&a, &b, &c, &d, &freq, &f1, &f2, &dir, &0.0, &d2)
     }
 
     /// One dimensional representation of the energy across the given axis
-- 
2.43.0


From eee0f8de94f8500e640a0b88ec08c807cccf9144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 32/55] fix: whole indices of frequency and direction are not
 interpolated to NaN

---
 src/spectra.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index c19f92c..bf2a9ae 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -157,6 +157,10 @@ impl Spectra {
             return self.frequency[0];
         }
 
+        if i_lower == i_upper {
+            return self.frequency[i_lower as usize];
+        }
+
         let v_lower = self.frequency[i_lower as usize];
         let v_upper = self.frequency[i_upper as usize];
         lerp(&v_lower, &v_upper, &f_index, &i_lower, &i_upper)
@@ -176,6 +180,10 @@ impl Spectra {
             return self.direction[0];
         }
 
+        if i_lower == i_upper {
+            return self.direction[i_lower as usize];
+        }
+
         let v_lower = self.direction[i_lower as usize];
         let v_upper = self.direction[i_upper as usize];
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
-- 
2.43.0


From 253345ca6a6ea958911d03d0609591d7968af5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 33/55] fix: regridding keeps the lowest frequency whatever the
 rounding

---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index bf2a9ae..344c609 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -611,8 +611,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From d1f27135d1b75d0e87b46b5a787ff504a70adb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 34/55] fix: a limit never adds systems to a split spectrum

---
 src/spectra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 344c609..ee12efe 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -91,7 +91,7 @@ impl Spectra {
         components: &(Vec<i32>, usize),
         limit: Option<usize>,
     ) -> Vec<Spectra> {
-        let limit = limit.unwrap_or(components.1);
+        let limit = limit.unwrap_or(components.1).min(components.1);
 
         (0..limit)
             .map(|i| Spectra::from_component(source_spectra, components, i as i32))
-- 
2.43.0


From 57d4765c1ccc6d2a41304d3a85cedf5a23f1781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 35/55] fix: partitioning leaves no bin of a wide boundary
 without a system

---
 src/tools/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 2fe0417..a43f8a7 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -376,7 +376,8 @@ pub fn watershed(
     // Find nearest neighbor of 0 watershed points and replace
     // use original input to check which group to affiliate with 0
     // Soring changes first in IMD to assure symetry in adjustment.
-    for _ in 0..5 {
+    // Every pass labels at least the points next to a labelled one, so that none is left in the end.
+    for _ in 0..count {
         imd = imo.clone();
 
         for jl in 0..count {
-- 
2.43.0


From 7f0547dfa7064d1622884b1d8bc6ead571ac185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:08 +0000
Subject: [PATCH 36/55] fix: no sunrise or sunset where the sun stays up or
 down all day

---
 src/solar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solar.rs b/src/solar.rs
index cff9524..4cb5a03 100644
--- a/src/solar.rs
+++ b/src/solar.rs
@@ -26,6 +26,11 @@ pub fn calculate_solar_events(location: &Location, date: &DateTime<Utc>) -> Opti
     let sunrise = solar_day.event_time(SolarEvent::Sunrise);
     let sunset = solar_day.event_time(SolarEvent::Sunset);
 
+    // Where the sun stays up or down all day both come back as the unix epoch
+    if sunrise >= sunset {
+        return None;
+    }
+
     Some(SolarEvents { sunrise, sunset })
 }
 
-- 
2.43.0


From de9aec8aefbb6c01b432f520b62cd10f53ed0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 37/55] fix: contours close every grid that goes round the
 globe, and only those

---
 src/tools/contour.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 04cdb81..d3fb985 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -3,8 +3,6 @@ use geojson::{Feature, Value};
 use itertools::Either;
 use serde::{Deserialize, Serialize};
 
-use crate::location::normalize_longitude;
-
 use super::{linspace::linspace, vector::min_max_fill};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -89,14 +87,19 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
     threshold_count: Option<usize>,
     label_format: Option<F>,
 ) -> Result<Vec<Feature>, ContourError> {
-    let lng_step = (lng_end - lng_start) / lng_count as f64;
-    let diff = normalize_longitude(lng_end) - normalize_longitude(lng_start);
+    let lng_step = if lng_count > 1 {
+        (lng_end - lng_start) / (lng_count - 1) as f64
+    } else {
+        0.0
+    };
+    // The grid goes round the globe when one more column would repeat the first
+    let is_global = ((lng_end + lng_step - lng_start).abs() - 360.0).abs() < 0.001;
 
     let mut data_count = lat_count * lng_count;
     let mut lng_end = lng_end;
     let mut lng_count = lng_count;
 
-    let mut data = if diff.abs() - lng_step.abs() < 0.001 {
+    let mut data = if is_global {
         let data = data
             .iter()
             .enumerate()
@@ -110,7 +113,7 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
                 }
             })
             .collect();
-        lng_end = (lng_end + lng_step).ceil();
+        lng_end = lng_start + 360.0_f64.copysign(lng_step);
         lng_count += 1;
         data_count = lat_count * lng_count;
         data
-- 
2.43.0


From 5112471d4a60436a7312e386260ff55b755f55b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 38/55] fix: the middle of a spectral bin is at i + 0.5 in
 contour coordinates

---
 src/spectra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index ee12efe..82c77a3 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -524,10 +524,11 @@ impl Spectra {
             self.nth(),
             &t,
             Some(|point: &Vec<f64>| {
-                let x = 1.0 / self.ik(point[0]);
+                // The contours have the middle of bin i at i + 0.5
+                let x = 1.0 / self.ik(point[0] - 0.5);
                 let y = self
                     .dir_convention
-                    .normalize(self.ith(point[1]).to_degrees());
+                    .normalize(self.ith(point[1] - 0.5).to_degrees());
                 vec![x, y]
             }),
             None::<Box<dyn Fn(&usize, &f64) -> String>>,
-- 
2.43.0


From 34769c434e9d007c3a6dc1aacca9d79f6aa55f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:13 +0000
Subject: [PATCH 39/55] fix: directional bandwidths are distances around the
 circle

---
 src/spectra.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index 82c77a3..d3ddb7d 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -140,8 +140,19 @@ impl Spectra {
     }
 
     /// Vector of directional bandwidths
+    /// The directions may be stored in either sense and wrap around anywhere in between
     pub fn dth(&self) -> Vec<f64> {
         diff(&self.direction)
+            .iter()
+            .map(|width| {
+                let width = width.abs();
+                if width > PI {
+                    (2.0 * PI - width).abs()
+                } else {
+                    width
+                }
+            })
+            .collect()
     }
 
     /// Interpolated frequency for a given index
-- 
2.43.0


From d7ab024780b5c47581e23d6249dfe2b0a8f1eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 40/55] fix: the direction between neighbours across north goes
 the short way around

---
 src/spectra.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index d3ddb7d..534a2e5 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -196,7 +196,12 @@ impl Spectra {
         }
 
         let v_lower = self.direction[i_lower as usize];
-        let v_upper = self.direction[i_upper as usize];
+        // Go the short way around between neighbours on either side of north
+        let v_upper = match self.direction[i_upper as usize] {
+            v if v - v_lower > PI => v - 2.0 * PI,
+            v if v_lower - v > PI => v + 2.0 * PI,
+            v => v,
+        };
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
 
-- 
2.43.0


From 4c6b78a8a70659dbe440e13ad7f7fa461cb5da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 41/55] fix: read the met attribute of a station list as an
 attribute

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..9bfe052 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,7 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(rename = "@met", deserialize_with = "bool_from_simple_str", default)]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From e3d381588cdf3e0989288f58a9aea581403594fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 42/55] fix: a station with only tsunami data is active

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 9bfe052..3d7c557 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -131,7 +131,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From c01e3ecfae04aaa888d02aed923fd0fb72a32451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 43/55] fix: refuse malformed lines of meteorological data
 instead of panicking

---
 src/data/meteorological_data_record.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..a89966c 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -42,16 +42,21 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let date = Utc
             .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
+                row[0].parse()?,
+                row[1].parse()?,
+                row[2].parse()?,
+                row[3].parse()?,
+                row[4].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(MeteorologicalDataRecord {
             date,
-- 
2.43.0


From d682cf06672eb0c7fe445bb22d7da10d708dce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 44/55] fix: refuse malformed lines of latest_obs data instead
 of panicking

---
 src/data/latest_obs_data_record.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..4e6eeab 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -50,19 +50,24 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
         let date = Utc
             .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
+                row[3].parse()?,
+                row[4].parse()?,
+                row[5].parse()?,
+                row[6].parse()?,
+                row[7].parse()?,
                 0,
             )
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         Ok(LatestObsDataRecord {
             station_id,
-- 
2.43.0


From c508aff29ed83e760518d5eaefe82e33dccacfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 45/55] fix: a quote in an observation line is an ordinary
 character

---
 src/data/latest_obs_data_record.rs     | 1 +
 src/data/meteorological_data_record.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 4e6eeab..72ba27c 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -189,6 +189,7 @@ impl<'a> LatestObsDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         LatestObsDataRecordCollection { reader }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index a89966c..9001dc7 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -273,6 +273,7 @@ impl<'a> MeteorologicalDataRecordCollection<'a> {
             .comment(Some(b'#'))
             .has_headers(false)
             .flexible(true)
+            .quoting(false)
             .from_reader(data.as_bytes());
 
         MeteorologicalDataRecordCollection { reader }
-- 
2.43.0


From 5a575d16d8c8d912aae504989fb9265c3629ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 46/55] fix: refuse malformed dap constraints instead of
 panicking

---
 src/tools/dap.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..55903f7 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -26,18 +26,18 @@ impl FromStr for DapConstraint {
         .to_string();
         let ranges = parts
             .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
-                    .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
+                let invalid = || format!("Invalid range in dap constraint: [{range}");
+                let mut bounds = range
+                    .strip_suffix(']')
+                    .ok_or_else(invalid)?
+                    .split(':')
+                    .map(|bound| bound.parse::<usize>().map_err(|_| invalid()));
+                match (bounds.next(), bounds.next(), bounds.next(), bounds.next()) {
+                    (Some(start), Some(step), Some(end), None) => Ok((start?, step?, end?)),
+                    _ => Err(invalid()),
+                }
             })
-            .collect::<Vec<(usize, usize, usize)>>();
+            .collect::<Result<Vec<(usize, usize, usize)>, String>>()?;
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From 240a7eb33e86dcf993639f280175c5a8e7dd5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 47/55] fix: the printed labels of units are read back as that
 unit

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index 5b9dc4b..45d4763 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -102,10 +102,10 @@ impl From<&str> for Unit {
             "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
                 Unit::Fahrenheit
             }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
             "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
-- 
2.43.0


From 915654b229ed3802bbcc9de80cd654c291d58ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:43 +0000
Subject: [PATCH 48/55] fix: cells within the tolerance of a place are found
 across the antimeridian

---
 src/model/noaa_model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..37b2e31 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -161,8 +161,6 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
 
         let data = message.data()?;
 
@@ -176,10 +174,13 @@ pub trait NOAAModel {
                 let row = i / lng.len();
                 let col = i % lng.len();
 
+                // Longitudes are compared around the circle, so that the cells may lie on
+                // either side of the antimeridian
+                let east = (lng[col] - location.longitude).rem_euclid(360.0);
+
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && normalize_longitude(east).abs() <= *tolerance
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0


From dac5761bfdd2a1f0485a14ac0edeb1e6c3394efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 49/55] fix: the value at a place is taken from the cells
 around it

---
 src/model/noaa_model.rs | 97 ++++++++++++++---------------------------
 1 file changed, 32 insertions(+), 65 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 37b2e31..8a0650d 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -114,6 +114,20 @@ impl ModelTimeOutputResolution {
     }
 }
 
+/// How many cells along an evenly spaced axis of latitudes or longitudes a coordinate lies.
+/// Steps are taken around the circle, so that the axis may cross the antimeridian or the
+/// prime meridian in either notation
+fn cells_along(axis: &[f64], coordinate: f64) -> f64 {
+    if axis.len() < 2 {
+        return 0.0;
+    }
+
+    let step = normalize_longitude((axis[1] - axis[0]).rem_euclid(360.0));
+    let offset = (coordinate - axis[0]) * step.signum();
+
+    (offset.rem_euclid(360.0) / step.abs()).clamp(0.0, (axis.len() - 1) as f64)
+}
+
 pub trait NOAAModel {
     fn id(&self) -> &'static str;
     fn name(&self) -> &'static str;
@@ -203,23 +217,12 @@ pub trait NOAAModel {
         }
 
         // This only works for regular grids.
-        let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
-        let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
-            .abs()
-            .round() as usize;
+        let (lat, lng) = projector.lat_lng();
+        let lng_index = cells_along(&lng, location.longitude).round() as usize;
+        let lat_index = cells_along(&lat, location.relative_latitude()).round() as usize;
 
         let data = message.data()?;
-        let latlng_index = lng_index + lng_size * lat_index;
-        let value = data[latlng_index];
+        let value = data[lng_index + lng.len() * lat_index];
         Ok(value)
     }
 
@@ -238,62 +241,26 @@ pub trait NOAAModel {
         }
 
         // This only works for regular grids.
-        let (lat_size, lng_size) = message.grid_dimensions()?;
-        let start = projector.latlng_start();
-        let end = projector.latlng_end();
-
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
-
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
-
         let (lat, lng) = projector.lat_lng();
-        let data = message.data()?;
+        let x = cells_along(&lng, location.longitude);
+        let y = cells_along(&lat, location.relative_latitude());
 
-        let a = data[lat_lower_index * lng_size + lng_lower_index];
-        let b = data[lat_lower_index * lng_size + lng_upper_index];
-        let c = data[lat_upper_index * lng_size + lng_lower_index];
-        let d = data[lat_upper_index * lng_size + lng_upper_index];
+        let (x0, x1) = (x.floor(), x.ceil());
+        let (y0, y1) = (y.floor(), y.ceil());
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        let data = message.data()?;
+        let cell = |x: f64, y: f64| data[x as usize + lng.len() * y as usize];
+        let (a, b) = (cell(x0, y0), cell(x1, y0));
+        let (c, d) = (cell(x0, y1), cell(x1, y1));
 
-        let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
+        let value = if y0 == y1 && x0 == x1 {
             a
-        } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+        } else if y0 == y1 {
+            lerp(&a, &b, &x, &x0, &x1)
+        } else if x0 == x1 {
+            lerp(&a, &c, &y, &y0, &y1)
         } else {
-            bilerp(
-                &a,
-                &b,
-                &c,
-                &d,
-                &location.longitude,
-                &x0,
-                &x1,
-                &location.latitude,
-                &y0,
-                &y1,
-            )
+            bilerp(&a, &b, &c, &d, &x, &x0, &x1, &y, &y0, &y1)
         };
 
         Ok(value)
-- 
2.43.0


From 943ec894ec228e26ecf05ba7980714d48c844160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 50/55] fix: directions of neighbouring cells are averaged
 around the circle

---
 src/data/gfs_wave_grib_point_data_record.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index ec61a95..c6659a8 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -24,6 +24,17 @@ pub struct GFSWaveGribPointDataRecord {
     pub swell_components: Vec<Swell>,
 }
 
+/// The mean of the directions of neighbouring cells, which may lie on either side of north
+fn mean_direction(degrees: &[f64]) -> f64 {
+    let first = degrees.first().copied().unwrap_or(f64::NAN);
+    let turned: f64 = degrees
+        .iter()
+        .map(|d| (d - first + 180.0).rem_euclid(360.0) - 180.0)
+        .sum();
+
+    (first + turned / degrees.len() as f64).rem_euclid(360.0)
+}
+
 impl GFSWaveGribPointDataRecord {
     pub fn from_messages(
         model: &impl NOAAModel,
@@ -58,8 +69,11 @@ impl GFSWaveGribPointDataRecord {
 
             match model.query_location_tolerance(location, &tolerance, m) {
                 Ok(value) => {
-                    let sum: f64 = value.iter().sum();
-                    let mean: f64 = sum / value.len() as f64;
+                    let mean = if abbrev.contains("DIR") {
+                        mean_direction(&value)
+                    } else {
+                        value.iter().sum::<f64>() / value.len() as f64
+                    };
                     data.insert(abbrev, mean);
                 }
                 Err(err) => println!("{err}"),
-- 
2.43.0


From 97793ee3f0ca2ffb4c078cdf92210ab9ad5bafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 51/55] fix: values missing around a place are missing in a
 grid point forecast

---
 src/data/gfs_wave_grib_point_data_record.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index c6659a8..8389389 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -92,7 +92,7 @@ impl GFSWaveGribPointDataRecord {
             return Err(DataRecordParsingError::KeyMissing("DIRPW".into()));
         };
 
-        let wave_summary = Swell::new(
+        let mut wave_summary = Swell::new(
             &UnitSystem::Metric,
             *wave_height,
             *period,
@@ -102,14 +102,27 @@ impl GFSWaveGribPointDataRecord {
             None,
         );
 
-        let wind_speed_value = data.get("WIND").map(|w| *w);
+        // Without any data around the place the value is missing
+        wave_summary.wave_height.value = Some(*wave_height).filter(|h| !h.is_nan());
+        wave_summary.period.value = Some(*period).filter(|p| !p.is_nan());
+        if wave_direction.is_nan() {
+            wave_summary.direction.value = None;
+        }
+        if wave_height.is_nan() || period.is_nan() {
+            wave_summary.energy = None;
+        }
+
+        let wind_speed_value = data.get("WIND").map(|w| *w).filter(|w| !w.is_nan());
         let wind_speed = DimensionalData {
             value: wind_speed_value,
             variable_name: "wind speed".into(),
             unit: Unit::MetersPerSecond,
         };
 
-        let wind_direction_value = data.get("WDIR").map(|d| Direction::from_degrees(*d as i32));
+        let wind_direction_value = data
+            .get("WDIR")
+            .filter(|d| !d.is_nan())
+            .map(|d| Direction::from_degrees(*d as i32));
         let wind_direction = DimensionalData {
             value: wind_direction_value,
             variable_name: "wind directions".into(),
-- 
2.43.0


From 0b4b83894cb6926bd09f8dd32e6813fa62105d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:07 +0000
Subject: [PATCH 52/55] fix: visibility and pressure tendency keep their names
 in the maps of an observation

---
 src/data/latest_obs_data_record.rs     |  6 +++++-
 src/data/meteorological_data_record.rs | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 72ba27c..f5503f0 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -134,7 +134,11 @@ impl ParseableDataRecord for LatestObsDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[20], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[20],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             tide: DimensionalData::from_raw_data(row[21], "tide".into(), Unit::Feet),
         })
     }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 9001dc7..048f1a8 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -111,7 +111,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[16], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[16],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             air_pressure_tendency: DimensionalData::from_raw_data(
                 row[17],
                 "air pressure tendency".into(),
@@ -190,6 +194,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, DimensionalData<f64>> {
                 m.mean_wave_direction.into(),
             ),
             (m.air_pressure.variable_name.clone(), m.air_pressure),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency,
+            ),
             (m.air_temperature.variable_name.clone(), m.air_temperature),
             (
                 m.water_temperature.variable_name.clone(),
@@ -240,6 +248,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, Option<String>> {
                 m.air_pressure.variable_name.clone(),
                 m.air_pressure.try_string(),
             ),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency.try_string(),
+            ),
             (
                 m.air_temperature.variable_name.clone(),
                 m.air_temperature.try_string(),
-- 
2.43.0


From 0e9e245c42d92f855e606a0fbff0252b15f19c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:20 +0000
Subject: [PATCH 53/55] fix: bounding boxes understand points whose latitude is
 written 0 to 180

---
 src/location.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 630b4a4..1121580 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -102,8 +102,9 @@ impl Location {
         let east_of_west = |longitude: f64| (absolute_longitude(longitude) - west).rem_euclid(360.0);
         let within_lng = bbox.2 - bbox.0 >= 360.0
             || east_of_west(self.longitude) <= east_of_west(bbox.2);
-        let within_lat = normalize_latitude(bbox.1) <= self.latitude
-            && self.latitude <= normalize_latitude(bbox.3);
+        let latitude = self.relative_latitude();
+        let within_lat =
+            normalize_latitude(bbox.1) <= latitude && latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
     }
 }
-- 
2.43.0


From b72901b41f21bef7bbdf710e502dca57c87da8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:35 +0000
Subject: [PATCH 54/55] fix: watershed: keep the number of levels within the
 range of their type

More than 65535 levels, or none, wrapped around in the conversion to u16: the
grid came back unlabelled, or as a single system.
---
 src/tools/analysis.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index a43f8a7..d60a3ea 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -226,6 +226,9 @@ pub fn watershed(
         return Err(WatershedError::InvalidData);
     }
 
+    // The levels are numbered from 1 in a u16
+    let steps = steps.clamp(1, usize::from(u16::MAX));
+
     let min_value = data.iter().copied().fold(f64::INFINITY, f64::min);
     let max_value = data.iter().copied().fold(f64::NEG_INFINITY, f64::max);
 
-- 
2.43.0


From d98a3719be6da93a4d56791045417188fc15f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:56 +0000
Subject: [PATCH 55/55] fix: the bearing of east-north-east lies in the middle
 of its sector

Every other point of the compass is within half a degree of its bearing; this
one was 1.5 degrees off.
---
 src/units/cardinal_direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/cardinal_direction.rs b/src/units/cardinal_direction.rs
index 1bfd68d..a9075ab 100644
--- a/src/units/cardinal_direction.rs
+++ b/src/units/cardinal_direction.rs
@@ -54,7 +54,7 @@ impl CardinalDirection {
             CardinalDirection::North => 0,
             CardinalDirection::NorthNorthEast => 23,
             CardinalDirection::NorthEast => 45,
-            CardinalDirection::EastNorthEast => 69,
+            CardinalDirection::EastNorthEast => 68,
             CardinalDirection::East => 90,
             CardinalDirection::EastSouthEast => 112,
             CardinalDirection::SouthEast => 135,
-- 
2.43.0

