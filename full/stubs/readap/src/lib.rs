//! Stand-in for readap: reads DAP2 answers made of grids (the form the buoy archive sends).  The binary
//! part holds, for every grid in the order of the header, the array and then its maps; each is written
//! as its length twice and then its values, four bytes (eight for Float64) most significant first.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind {
    Int32,
    Float32,
    Float64,
}
#[derive(Debug, Clone)]
pub enum DataArray {
    Int32(Vec<i32>),
    Float32(Vec<f32>),
    Float64(Vec<f64>),
}
#[derive(Debug, Clone)]
pub enum DataValue {
    Int32(i32),
    Float32(f32),
    Float64(f64),
}
#[derive(Debug, Clone)]
pub struct Error(pub String);

impl TryInto<f64> for DataValue {
    type Error = Error;
    fn try_into(self) -> Result<f64, Error> {
        Ok(match self {
            DataValue::Int32(v) => v as f64,
            DataValue::Float32(v) => v as f64,
            DataValue::Float64(v) => v,
        })
    }
}
impl TryInto<Vec<f64>> for DataArray {
    type Error = Error;
    fn try_into(self) -> Result<Vec<f64>, Error> {
        Ok(match self {
            DataArray::Int32(v) => v.into_iter().map(|v| v as f64).collect(),
            DataArray::Float32(v) => v.into_iter().map(|v| v as f64).collect(),
            DataArray::Float64(v) => v,
        })
    }
}
impl TryInto<Vec<i64>> for DataArray {
    type Error = Error;
    fn try_into(self) -> Result<Vec<i64>, Error> {
        Ok(match self {
            DataArray::Int32(v) => v.into_iter().map(|v| v as i64).collect(),
            DataArray::Float32(v) => v.into_iter().map(|v| v as i64).collect(),
            DataArray::Float64(v) => v.into_iter().map(|v| v as i64).collect(),
        })
    }
}

#[derive(Debug, Clone)]
struct Grid {
    name: String,
    array: DataArray,
    maps: Vec<(String, DataArray)>,
}

#[derive(Debug, Clone)]
pub struct DodsDataset<'a> {
    grids: Vec<Grid>,
    _data: std::marker::PhantomData<&'a [u8]>,
}

struct Shape {
    kind: Kind,
    name: String,
    size: usize,
}

fn err<T>(m: &str) -> Result<T, Error> {
    Err(Error(m.into()))
}

fn declaration(line: &str) -> Result<Shape, Error> {
    let line = line.trim().trim_end_matches(';');
    let (kind, rest) = line.split_once(' ').ok_or(Error(line.into()))?;
    let kind = match kind {
        "Int32" => Kind::Int32,
        "Float32" => Kind::Float32,
        "Float64" => Kind::Float64,
        _ => return err(kind),
    };
    let mut parts = rest.split('[');
    let name = parts.next().unwrap_or("").to_string();
    let mut size = 1;
    for p in parts {
        let n = p.trim_end_matches(']').rsplit(' ').next().unwrap_or("");
        size *= n.parse::<usize>().map_err(|e| Error(e.to_string()))?;
    }
    Ok(Shape { kind, name, size })
}

impl<'a> DodsDataset<'a> {
    pub fn from_bytes(data: &'a [u8]) -> Result<Self, Error> {
        let mark = b"\nData:\n";
        let at = data.windows(mark.len()).position(|w| w == mark).ok_or(Error("no data".into()))?;
        let header = std::str::from_utf8(&data[..at]).map_err(|e| Error(e.to_string()))?;
        let mut rest = &data[at + mark.len()..];
        let mut grids = vec![];
        let (mut shapes, mut in_grid): (Vec<Shape>, bool) = (vec![], false);
        for line in header.lines().map(str::trim) {
            match line {
                "Grid {" => in_grid = true,
                "ARRAY:" | "MAPS:" | "Dataset {" | "" => {}
                l if l.starts_with('}') && in_grid => {
                    in_grid = false;
                    let mut read = vec![];
                    for s in shapes.drain(..) {
                        let v = take(&mut rest, &s)?;
                        read.push((s.name, v));
                    }
                    let mut read = read.into_iter();
                    let (name, array) = read.next().ok_or(Error("empty grid".into()))?;
                    grids.push(Grid { name, array, maps: read.collect() });
                }
                l if l.starts_with('}') => {}
                l if in_grid => shapes.push(declaration(l)?),
                _ => {}
            }
        }
        Ok(DodsDataset { grids, _data: std::marker::PhantomData })
    }
    fn grid(&self, name: &str) -> Result<&Grid, Error> {
        self.grids.iter().find(|g| g.name == name).ok_or_else(|| Error(format!("no {name}")))
    }
    pub fn variable_coords(&self, name: &str) -> Result<Vec<(String, DataArray)>, Error> {
        Ok(self.grid(name)?.maps.clone())
    }
    pub fn variable_data_iter(&self, name: &str) -> Result<Box<dyn Iterator<Item = DataValue> + '_>, Error> {
        Ok(match &self.grid(name)?.array {
            DataArray::Int32(v) => Box::new(v.iter().map(|v| DataValue::Int32(*v))),
            DataArray::Float32(v) => Box::new(v.iter().map(|v| DataValue::Float32(*v))),
            DataArray::Float64(v) => Box::new(v.iter().map(|v| DataValue::Float64(*v))),
        })
    }
}

fn word<'b>(rest: &mut &'b [u8], n: usize) -> Result<&'b [u8], Error> {
    if rest.len() < n {
        return err("cut short");
    }
    let (a, b) = rest.split_at(n);
    *rest = b;
    Ok(a)
}

fn take(rest: &mut &[u8], s: &Shape) -> Result<DataArray, Error> {
    for _ in 0..2 {
        let n = u32::from_be_bytes(word(rest, 4)?.try_into().unwrap()) as usize;
        if n != s.size {
            return err("length");
        }
    }
    Ok(match s.kind {
        Kind::Int32 => DataArray::Int32((0..s.size).map(|_| Ok(i32::from_be_bytes(word(rest, 4)?.try_into().unwrap()))).collect::<Result<_, Error>>()?),
        Kind::Float32 => DataArray::Float32((0..s.size).map(|_| Ok(f32::from_be_bytes(word(rest, 4)?.try_into().unwrap()))).collect::<Result<_, Error>>()?),
        Kind::Float64 => DataArray::Float64((0..s.size).map(|_| Ok(f64::from_be_bytes(word(rest, 8)?.try_into().unwrap()))).collect::<Result<_, Error>>()?),
    })
}
