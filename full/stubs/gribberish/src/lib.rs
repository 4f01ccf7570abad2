//! Stand-in for gribberish: just what surfrs uses of it.  Messages are made by the checks instead of
//! being decoded; nothing here decodes GRIB.
#[macro_export]
macro_rules! unwrap_or_return {
    ($e:expr, $m:expr) => {
        match $e {
            Some(v) => v,
            None => return Err($m.into()),
        }
    };
}

pub mod error {
    #[derive(Debug, Clone)]
    pub enum GribberishError {
        MessageError(String),
    }
    impl std::fmt::Display for GribberishError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for GribberishError {}
}

pub mod templates {
    pub mod product {
        pub mod tables {
            #[derive(Debug, Clone, PartialEq)]
            pub enum FixedSurfaceType {
                GroundOrWater,
                OrderedSequence,
                Missing,
            }
        }
    }
}

pub mod message {
    use super::error::GribberishError;
    use super::templates::product::tables::FixedSurfaceType;
    use chrono::{DateTime, Utc};

    /// A field on a regular grid; `None` is what the real library could not read.
    #[derive(Debug, Clone)]
    pub struct Message {
        pub date: Option<DateTime<Utc>>,
        pub abbrev: Option<String>,
        pub surface: Option<(FixedSurfaceType, Option<f64>)>,
        pub unit: Option<String>,
        pub latitudes: Vec<f64>,
        pub longitudes: Vec<f64>,
        pub values: Vec<f64>,
    }

    #[derive(Debug, Clone)]
    pub struct Projector {
        latitudes: Vec<f64>,
        longitudes: Vec<f64>,
    }
    impl Projector {
        pub fn bbox(&self) -> (f64, f64, f64, f64) {
            let (a, b) = (self.latlng_start(), self.latlng_end());
            (a.1, a.0.min(b.0), b.1, a.0.max(b.0))
        }
        pub fn lat_lng(&self) -> (Vec<f64>, Vec<f64>) {
            (self.latitudes.clone(), self.longitudes.clone())
        }
        pub fn latlng_start(&self) -> (f64, f64) {
            (self.latitudes[0], self.longitudes[0])
        }
        pub fn latlng_end(&self) -> (f64, f64) {
            (*self.latitudes.last().unwrap(), *self.longitudes.last().unwrap())
        }
    }

    fn absent<T>(v: Option<T>) -> Result<T, GribberishError> {
        v.ok_or_else(|| GribberishError::MessageError("absent".into()))
    }
    impl Message {
        pub fn forecast_date(&self) -> Result<DateTime<Utc>, GribberishError> {
            absent(self.date)
        }
        pub fn variable_abbrev(&self) -> Result<String, GribberishError> {
            absent(self.abbrev.clone())
        }
        pub fn first_fixed_surface(&self) -> Result<(FixedSurfaceType, Option<f64>), GribberishError> {
            absent(self.surface.clone())
        }
        pub fn unit(&self) -> Result<String, GribberishError> {
            absent(self.unit.clone())
        }
        pub fn latlng_projector(&self) -> Result<Projector, GribberishError> {
            Ok(Projector { latitudes: self.latitudes.clone(), longitudes: self.longitudes.clone() })
        }
        pub fn grid_dimensions(&self) -> Result<(usize, usize), GribberishError> {
            Ok((self.latitudes.len(), self.longitudes.len()))
        }
        pub fn data(&self) -> Result<Vec<f64>, GribberishError> {
            Ok(self.values.clone())
        }
    }
}
