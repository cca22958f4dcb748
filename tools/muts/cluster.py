P='gaoya/src/clustering/clusterer_parallel.rs'
S='gaoya/src/clustering/clustering_serial.rs'
LOCK="        let _creation = self.creation_lock.lock().unwrap();\n"
CAS="        self.cluster.compare_exchange(\n            ptr::null_mut(),\n            cluster_ptr,\n            Ordering::Relaxed,\n            Ordering::Relaxed,\n        )"
RB="""            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );"""
ERR="""                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;"""
COM="""        if !cluster.commit() {
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
"""
LOOP="""        for point in points.iter() {
            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {
                    // This point already belongs to a cluster created by another thread
                    cluster.rollback();
                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;
                }
            }
        }
"""
MUTS=[
 ('par-b1','bug:C17',[(P,LOCK,"")]),
 ('par-b2','bug:C17',[(P,LOCK,"        drop(self.creation_lock.lock().unwrap());\n")]),
 ('par-b3','bug:C17',[(P,CAS,"        let old = self.get_cluster();\n        if old.is_null() {\n            self.cluster.store(cluster_ptr, Ordering::Relaxed);\n            Ok(old)\n        } else {\n            Err(old)\n        }")]),
 ('par-b4','bug:C17',[(P,RB,"            point.cluster.compare_exchange(\n                null_mut(),\n                cluster_ptr,\n                Ordering::Relaxed,\n                Ordering::Relaxed,\n            );")]),
 ('par-b5','bug:C17',[(P,"        for point in cluster.points.iter_mut() {","        for point in cluster.points.iter_mut().skip(1) {")]),
 ('par-b6','bug:C17',[(P,ERR,"                    cluster.rollback();\n                    return None;")]),
 ('par-b7','bug:C16,C17',[(P,ERR,"                    continue;")]),
 ('par-b8','bug:C17',[(P,COM,"        drop(_creation);\n"+COM)]),
 ('par-b9','bug:C17',[(P,COM,"")]),
 ('par-b10','bug:C17',[(P,"const ROLLED_BACK: u8 = 2;","const ROLLED_BACK: u8 = 1;")]),
 ('par-b11','bug:C17',[(P,"                    // This point already belongs to a cluster created by another thread\n","                    drop(_creation);\n")]),
 ('par-b12','bug:C16',[(P,"similar_points.len() >= self.min_cluster_size","similar_points.len() + 1 >= self.min_cluster_size")]),
 ('par-b13','bug:C16',[(P,"                .filter(|point| !point.is_cluster_assigned())\n","")]),
 ('par-b14','bug:C16',[(P,"similar_points.len() >= self.min_cluster_size","similar_points.len() > self.min_cluster_size")]),
 ('par-b15','bug:C16',[(P,"self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1","self.cluster_id_sequence.load(Ordering::Relaxed) + 1"),(P,COM,COM+"        self.cluster_id_sequence.fetch_max(cluster_id - 1, Ordering::Relaxed);\n")]),
 ('par-b16','bug:C17',[(P,RB,"            point.cluster.compare_exchange_weak(\n                cluster_ptr,\n                null_mut(),\n                Ordering::Relaxed,\n                Ordering::Relaxed,\n            );")]),
 ('par-b17','bug:C17',[(P,"""        let mut cluster: Box<Cluster<Id>> =
            Box::new(Cluster::new(cluster_id, self.min_cluster_size));
        let cluster_const_ptr: *const Cluster<Id> = &*cluster;
""","""        let cluster = Cluster::new(cluster_id, self.min_cluster_size);
        let cluster_const_ptr: *const Cluster<Id> = &cluster;
        let mut cluster: Box<Cluster<Id>> = Box::new(cluster);
""")]),
 ('par-b18','bug:C16',[(P,"points.par_chunks_mut(chunk_size)","points.par_chunks_exact_mut(chunk_size)")]),
 ('par-b19','bug:C17',[(P,LOCK,"        let lock = Mutex::new(());\n        let _creation = lock.lock().unwrap();\n")]),
 ('par-b20','bug:C16',[(P,"            if point.cluster.load(Ordering::Relaxed) != null_mut() {\n                continue;\n            }\n","            if point.cluster.load(Ordering::Relaxed) != null_mut() {\n                break;\n            }\n")]),
 ('par-b21','bug:C16',[(P,"        self.id.hash(state)","        self.id.hash(state);\n        self.is_cluster_assigned().hash(state)"),(P,"impl<Id> Hash for ClusterPointInner<Id>\nwhere\n    Id: Hash,","impl<Id> Hash for ClusterPointInner<Id>\nwhere\n    Id: Hash + Clone,")]),
 ('par-b22','bug:C17',[(P,"        let chunk_size = std::cmp::max(1, points.len() / self.n_threads);","        let chunk_size = points.len() / self.n_threads;")]),
 ('par-b23','bug:C17',[(P,RB,"            point.cluster.store(null_mut(), Ordering::Relaxed);"),(P,"        for point in cluster.points.iter_mut() {","        for point in points.iter() {"),(P,"        cluster: &mut Box<Cluster<Id>>,\n","        points: &[ClusterPoint<Id>],\n"),(P,"self.rollback_cluster_points(&mut cluster, cluster_ptr);\n                    return","self.rollback_cluster_points(points, cluster_ptr);\n                    return"),(P,"self.rollback_cluster_points(&mut cluster, cluster_ptr);\n            return","self.rollback_cluster_points(points, cluster_ptr);\n            return")]),
 ('ser-b1','bug:C16',[(S,".filter(|point| point.cluster.get().is_none())\n","")]),
 ('ser-b2','bug:C16',[(S,"        for mut point in points.into_iter() {\n            point.assign_cluster(cluster_id);\n            cluster.points.push(point);","        for (i, mut point) in points.into_iter().enumerate() {\n            if i > 0 { point.assign_cluster(cluster_id); }\n            cluster.points.push(point);")]),
 ('ser-b3','bug:C16',[(S,"            point.assign_cluster(cluster_id);","            point.assign_cluster(cluster_id - 1);")]),
 ('ser-b4','bug:C16',[(S,"        let mut clusters = Vec::new();\n        for point","        let mut clusters = Vec::new();\n        self.cluster_id_sequence = 0;\n        for point")]),
 ('ser-b5','bug:C16',[(S,"similar_points.len() >= self.min_cluster_size","similar_points.len() >= self.min_cluster_size.saturating_sub(1)")]),
 ('ser-b6','bug:C16',[(S,"            if point.cluster.get().is_some() {\n                continue;\n            }\n","")]),
 ('ser-b7','bug:C16',[(S,"        self.cluster_id_sequence += 1;\n        self.cluster_id_sequence\n","        if self.cluster_id_sequence < 65535 { self.cluster_id_sequence += 1; }\n        self.cluster_id_sequence\n")]),
 ('ser-b8','bug:C16',[(S,"            let similar_points: Vec<_> = query_index.query(point).into_iter()\n                .filter","            let similar_points: Vec<_> = query_index.query(point).into_iter().take(1000)\n                .filter")]),
 ('ser-b9','bug:C16',[(S,"            cluster: Cell::new(None)","            cluster: Cell::new(Some(0))")]),
 ('ser-b10','bug:C16',[(S,"                .map(|p| p.clone()).collect();\n","                .map(|p| Rc::new((**p).clone())).collect();\n")]),
 ('par-g1','benign',[(P,LOCK,"        let guard = self.creation_lock.lock().unwrap();\n"),(P,COM,COM+"        drop(guard);\n")]),
 ('par-g2','benign',[(P,LOOP,"""        let mut failed = false;
        for point in points.iter() {
            if point.assign_cluster(cluster_ptr).is_ok() {
                cluster.points.push(point.clone());
            } else {
                failed = true;
                break;
            }
        }
        if failed {
            cluster.rollback();
            self.rollback_cluster_points(&mut cluster, cluster_ptr);
            return None;
        }
""")]),
 ('par-g3','benign',[(P,"            if point.cluster.load(Ordering::Relaxed) != null_mut() {\n                continue;\n            }\n","            if point.is_cluster_assigned() {\n                continue;\n            }\n")]),
 ('par-g4','benign',[(P,"self.cluster.load(Ordering::Relaxed)","self.cluster.load(Ordering::Acquire)")]),
 ('par-g5','benign',[(P,"                match self.try_create_cluster(&mut similar_points_cloned) {\n                    Some(cluster) => {\n                        clusters.push(cluster);\n                    }\n                    None => {}\n                }","                if let Some(cluster) = self.try_create_cluster(&mut similar_points_cloned) {\n                    clusters.push(cluster);\n                }")]),
 ('par-g6','benign',[(P,"        result.into_iter().flat_map(|v| v.into_iter()).collect()","        let mut out = Vec::new();\n        for v in result {\n            out.extend(v);\n        }\n        out")]),
 ('par-g7','benign',[(P,"            if similar_points.len() >= self.min_cluster_size {\n","            if similar_points.len() < self.min_cluster_size {\n                continue;\n            }\n            {\n")]),
 ('par-g8','benign',[(P,"        let cluster_const_ptr: *const Cluster<Id> = &*cluster;\n        let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;\n","        let cluster_ptr: *mut Cluster<Id> = &mut *cluster;\n")]),
 ('par-g9','benign',[(P,"        self.sort_by_most_number_of_similar_points(points, query_index);\n","        if points.len() > 1 {\n            self.sort_by_most_number_of_similar_points(points, query_index);\n        }\n")]),
 ('par-g10','benign',[(P,"""        for point in cluster.points.iter_mut() {
            point.cluster""","""        for i in 0..cluster.points.len() {
            let point = &cluster.points[i];
            point.cluster""")]),
 ('par-g11','benign',[(P,"        for point in points.iter() {\n            match","        for i in 0..points.len() {\n            let point = &points[i];\n            match")]),
 ('par-g12','benign',[(P,"self.creation_lock.lock().unwrap()","self.creation_lock.lock().unwrap_or_else(|e| e.into_inner())")]),
 ('par-g13','benign',[(P,"            .map(|chunk| self.cluster_slice(chunk, query_index))\n            .collect();\n        result.into_iter().flat_map(|v| v.into_iter()).collect()","            .flat_map_iter(|chunk| self.cluster_slice(chunk, query_index))\n            .collect();\n        result")]),
 ('ser-g1','benign',[(S,"        for mut point in points.into_iter() {\n            point.assign_cluster(cluster_id);\n            cluster.points.push(point);\n        }","        for point in &points {\n            point.assign_cluster(cluster_id);\n        }\n        cluster.points = points;")]),
 ('ser-g2','benign',[(S,"                let cluster_id = self.new_cluster_id();\n","                self.cluster_id_sequence += 1;\n                let cluster_id = self.cluster_id_sequence;\n")]),
 ('ser-g3','benign',[(S,"            let similar_points: Vec<_> = query_index.query(point).into_iter()\n                .filter(|point| point.cluster.get().is_none())\n                .map(|p| p.clone()).collect();\n","            let mut similar_points = Vec::new();\n            for p in query_index.query(point) {\n                if p.cluster.get() == None {\n                    similar_points.push(Rc::clone(p));\n                }\n            }\n")]),
 ('ser-g4','benign',[(S,"            if point.cluster.get().is_some() {\n                continue;\n            }\n","            match point.cluster.get() {\n                Some(_) => continue,\n                None => {}\n            }\n")]),
 ('ser-g5','benign',[(S,"        for mut point in points.into_iter() {\n            point.assign_cluster(cluster_id);\n            cluster.points.push(point);\n        }\n        cluster","        points.iter().for_each(|p| p.assign_cluster(cluster_id));\n        cluster.points.extend(points);\n        cluster")]),
]
