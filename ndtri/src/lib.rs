//! Pure-Rust stand-in for the crate `nd-triangulation` (CGAL binding), which cannot be linked
//! in this sandbox.  It offers the part of its API which osmgraphing uses: the facets of the
//! convex hull of a set of points, each with an id that stays the same as long as the facet
//! exists.  Which order the facets come in is unspecified by CGAL, so the simulator chooses it
//! (environment variable SIM_TRI_SEED).

use std::collections::HashMap;
use std::fmt;

#[non_exhaustive]
#[derive(Debug, PartialEq, Eq)]
pub enum TriangulationError {
    WrongDimension {
        actual_dim: usize,
        expected_dim: usize,
    },
}

impl fmt::Display for TriangulationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}

impl std::error::Error for TriangulationError {}

#[derive(Debug)]
pub struct Triangulation {
    dim: usize,
    points: Vec<Vec<f64>>,
    vertex_ids: Vec<usize>,
    next_vertex_id: usize,
    ids: HashMap<Vec<usize>, usize>,
    next_cell_id: usize,
    seed: u64,
}

#[derive(Debug)]
pub struct Cell<'a> {
    id: usize,
    vertices: Vec<usize>,
    tri: &'a Triangulation,
}

#[derive(Debug)]
pub struct Vertex<'a> {
    id: usize,
    tri: &'a Triangulation,
}

impl<'a> Vertex<'a> {
    pub fn id(&self) -> usize {
        self.tri.vertex_ids[self.id]
    }

    pub fn coords(&self) -> &'a [f64] {
        &self.tri.points[self.id]
    }
}

impl<'a> Cell<'a> {
    pub fn id(&self) -> usize {
        self.id
    }

    pub fn vertices(&self) -> std::vec::IntoIter<Vertex<'a>> {
        self.vertices
            .iter()
            .map(|&id| Vertex { id, tri: self.tri })
            .collect::<Vec<_>>()
            .into_iter()
    }
}

pub struct CellIter<'a> {
    cells: std::vec::IntoIter<Cell<'a>>,
}

impl<'a> Iterator for CellIter<'a> {
    type Item = Cell<'a>;

    fn next(&mut self) -> Option<Cell<'a>> {
        self.cells.next()
    }
}

impl Triangulation {
    pub fn new(dim: usize) -> Triangulation {
        let seed = std::env::var("SIM_TRI_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(0u64);
        Triangulation {
            dim,
            points: Vec::new(),
            vertex_ids: Vec::new(),
            next_vertex_id: 0,
            ids: HashMap::new(),
            next_cell_id: 1,
            seed,
        }
    }

    pub fn add_vertex(&mut self, coords: &[f64]) -> Result<usize, TriangulationError> {
        if coords.len() != self.dim {
            return Err(TriangulationError::WrongDimension {
                actual_dim: coords.len(),
                expected_dim: self.dim,
            });
        }
        // like CGAL: inserting a known point yields the known vertex, which gets the new id
        let id = self.next_vertex_id;
        self.next_vertex_id += 1;
        match self.points.iter().position(|p| p.as_slice() == coords) {
            Some(k) => self.vertex_ids[k] = id,
            None => {
                self.points.push(coords.to_vec());
                self.vertex_ids.push(id);
            }
        }
        Ok(id)
    }

    pub fn convex_hull_cells(&mut self) -> CellIter {
        let d = self.dim;
        let n = self.points.len();
        let mut facets: Vec<Vec<usize>> = Vec::new();
        if d >= 1 && n > d {
            let mut idx: Vec<usize> = (0..d).collect();
            loop {
                if self.is_facet(&idx) {
                    facets.push(idx.clone());
                }
                // next combination
                let mut i = d;
                while i > 0 && idx[i - 1] == n - d + i - 1 {
                    i -= 1;
                }
                if i == 0 {
                    break;
                }
                idx[i - 1] += 1;
                for j in i..d {
                    idx[j] = idx[j - 1] + 1;
                }
            }
        }
        // order as chosen by the simulator
        if self.seed != 0 {
            let mut s = self.seed ^ (n as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            for i in (1..facets.len()).rev() {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                facets.swap(i, (s % (i as u64 + 1)) as usize);
            }
        }
        for f in &facets {
            if !self.ids.contains_key(f) {
                self.ids.insert(f.clone(), self.next_cell_id);
                self.next_cell_id += 1;
            }
        }
        let this = &*self;
        CellIter {
            cells: facets
                .into_iter()
                .map(|vertices| Cell {
                    id: this.ids[&vertices],
                    vertices,
                    tri: this,
                })
                .collect::<Vec<_>>()
                .into_iter(),
        }
    }

    fn is_facet(&self, idx: &[usize]) -> bool {
        let d = self.dim;
        // normal n with n*(p_i - p_0) = 0, found by elimination
        let p0 = &self.points[idx[0]];
        let mut m: Vec<Vec<f64>> = idx[1..]
            .iter()
            .map(|&i| (0..d).map(|k| self.points[i][k] - p0[k]).collect())
            .collect();
        let mut pivots = Vec::new();
        let mut row = 0;
        for col in 0..d {
            if row == m.len() {
                break;
            }
            let best = (row..m.len())
                .max_by(|&a, &b| m[a][col].abs().partial_cmp(&m[b][col].abs()).unwrap())
                .unwrap();
            if m[best][col].abs() < 1e-9 {
                continue;
            }
            m.swap(row, best);
            let p = m[row][col];
            for k in 0..d {
                m[row][k] /= p;
            }
            for r in 0..m.len() {
                if r != row {
                    let f = m[r][col];
                    for k in 0..d {
                        let v = m[row][k];
                        m[r][k] -= f * v;
                    }
                }
            }
            pivots.push(col);
            row += 1;
        }
        if pivots.len() + 1 != d {
            // degenerate: the points do not span a hyperplane
            return false;
        }
        let free = (0..d).find(|c| !pivots.contains(c)).unwrap();
        let mut normal = vec![0.0; d];
        normal[free] = 1.0;
        for (r, &c) in pivots.iter().enumerate() {
            normal[c] = -m[r][free];
        }
        let (mut neg, mut pos) = (false, false);
        for (i, p) in self.points.iter().enumerate() {
            if idx.contains(&i) {
                continue;
            }
            let s: f64 = (0..d).map(|k| normal[k] * (p[k] - p0[k])).sum();
            if s > 1e-9 {
                pos = true;
            } else if s < -1e-9 {
                neg = true;
            }
        }
        !(neg && pos)
    }
}
