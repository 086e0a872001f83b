From 2804ff04f8a54e6fa5a7c33a879a08a74cb22f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:20 +0000
Subject: [PATCH 01/15] fix: block engine handles body counts that are not a
 multiple of the block size

---
 nbody/nbody_engine_block.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nbody/nbody_engine_block.cpp b/nbody/nbody_engine_block.cpp
index 8c12813..cb23fa9 100644
--- a/nbody/nbody_engine_block.cpp
+++ b/nbody/nbody_engine_block.cpp
@@ -57,8 +57,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 		nbcoord_t			total_force_x[block];
 		nbcoord_t			total_force_y[block];
 		nbcoord_t			total_force_z[block];
+		const size_t		len1 = std::min(block, count - n1);
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != len1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 
@@ -75,8 +76,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			nbcoord_t			y2[block];
 			nbcoord_t			z2[block];
 			nbcoord_t			m2[block];
+			const size_t		len2 = std::min(block, count - n2);
 
-			for(size_t b2 = 0; b2 != block; ++b2)
+			for(size_t b2 = 0; b2 != len2; ++b2)
 			{
 				size_t local_n2 = b2 + n2;
 
@@ -86,9 +88,9 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 				m2[b2] = mass[n2 + b2];
 			}
 
-			for(size_t b1 = 0; b1 != block; ++b1)
+			for(size_t b1 = 0; b1 != len1; ++b1)
 			{
-				for(size_t b2 = 0; b2 != block; ++b2)
+				for(size_t b2 = 0; b2 != len2; ++b2)
 				{
 					nbcoord_t		dx = x1[b1] - x2[b2];
 					nbcoord_t		dy = y1[b1] - y2[b2];
@@ -112,7 +114,7 @@ void nbody_engine_block::fcompute(const nbcoord_t& t, const memory* _y, memory*
 			}
 		}
 
-		for(size_t b1 = 0; b1 != block; ++b1)
+		for(size_t b1 = 0; b1 != len1; ++b1)
 		{
 			size_t local_n1 = b1 + n1;
 			frx[local_n1] = vx[local_n1];
-- 
2.43.0


From b6ff6857e5e0a107ec6de08da7501a91b510fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:08 +0000
Subject: [PATCH 02/15] fix: trapezoidal solver evaluates the predicted
 derivative at the end of the step

The corrector averages f(t, y) and f(t + dt, y'), but the second derivative
was requested at time t, so a time-dependent right-hand side would be
integrated at first order only.
---
 nbody/nbody_solver_trapeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_solver_trapeze.cpp b/nbody/nbody_solver_trapeze.cpp
index a91f95d..198ff4b 100644
--- a/nbody/nbody_solver_trapeze.cpp
+++ b/nbody/nbody_solver_trapeze.cpp
@@ -41,7 +41,7 @@ void nbody_solver_trapeze::advise(nbcoord_t dt)
 	for(size_t s = 0; s <= m_refine_steps_count; ++s)
 	{
 		const nbcoord_t	coeff[] = { dt / 2_f, dt / 2_f };
-		engine()->fcompute(t, m_predictor, m_f[1]);
+		engine()->fcompute(t + dt, m_predictor, m_f[1]);
 
 		if(s == m_refine_steps_count)
 		{
-- 
2.43.0


From 987caed47e0e7d63d002fd22d8ce2c491adeef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 03/15] fix: stream writer reports data that could not be
 flushed and keeps it out of the index

---
 nbody/nbody_data_stream.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index 56297e7..ee3e893 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -70,7 +70,8 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcolor_t)*bdata->get_count());
-			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz))
+			if(sz != col.write(reinterpret_cast<const char*>(bdata->get_color()), sz) ||
+			   !col.flush())
 			{
 				qDebug() << "Can't write file" << col.fileName() << col.errorString();
 				return -1;
@@ -84,7 +85,8 @@ struct nbody_data_stream::data
 				return -1;
 			}
 			qint64		sz(sizeof(nbcoord_t)*bdata->get_count());
-			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz))
+			if(sz != mass.write(reinterpret_cast<const char*>(bdata->get_mass()), sz) ||
+			   !mass.flush())
 			{
 				qDebug() << "Can't write file" << mass.fileName() << mass.errorString();
 				return -1;
@@ -149,7 +151,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 		return -1;
 	}
 
-	d->m_data.flush();
+	if(!d->m_data.flush())
+	{
+		qDebug() << "Can't flush file" << d->m_data.fileName()
+				 << d->m_data.errorString();
+		return -1;
+	}
 
 	d->m_idx_stream << bdata->get_step() << get_idx_separator()
 					<< bdata->get_time() << get_idx_separator()
@@ -158,6 +165,12 @@ int nbody_data_stream::write(const nbody_data* bdata)
 
 	d->m_idx_stream.flush();
 
+	if(d->m_idx_stream.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << d->m_idx.fileName() << d->m_idx.errorString();
+		return -1;
+	}
+
 	return 0;
 }
 
-- 
2.43.0


From e3293e52761865c3eddbef848c1ffe2f68a55839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 04/15] fix: a reopened stream writes its own header

---
 nbody/nbody_data_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_data_stream.cpp b/nbody/nbody_data_stream.cpp
index ee3e893..93ec4e8 100644
--- a/nbody/nbody_data_stream.cpp
+++ b/nbody/nbody_data_stream.cpp
@@ -191,6 +191,7 @@ int nbody_data_stream::open(const QString& name, qint64 max_part_size,
 	else
 	{
 		d->m_file_n = 0;
+		d->m_header_written = false;
 	}
 
 	if(0 != d->open_data_file(append_mode))
-- 
2.43.0


From 5cf34731ca581537b27f2fb249503b1d6390197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 05/15] fix: nbody_data::save reports write failures

---
 nbody/nbody_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 2f8e990..705fc6e 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -436,6 +436,13 @@ bool nbody_data::save(const QString& fn) const
 		  << m_mass[n] << " " << m_radius[n] << "\n";
 	}
 
+	s.flush();
+	if(s.status() != QTextStream::Ok)
+	{
+		qDebug() << "Can't write file" << fn << file.errorString();
+		return false;
+	}
+
 	return true;
 }
 
-- 
2.43.0


From f681375fffcda2cde374665eb0cc76e543fd9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:51 +0000
Subject: [PATCH 06/15] fix: stream reader forgets the previous stream when it
 is closed

---
 nbody/nbody_data_stream_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index c6b834e..bdd4bd5 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -194,6 +194,11 @@ void nbody_data_stream_reader::close()
 	d->m_file.close();
 	d->m_file_n = std::numeric_limits<size_t>::max();
 	d->m_current_frame = std::numeric_limits<size_t>::max();
+	d->m_coord_size = 0;
+	d->m_body_count = 0;
+	d->m_box_size = 0;
+	d->m_colors_read = false;
+	d->m_masses_read = false;
 }
 
 size_t nbody_data_stream_reader::get_frame_count() const
-- 
2.43.0


From b74d2a332de651b47123a4915ab8988b0cc5a21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 07/15] fix: stream reader reads a frame only from that frame's
 position

---
 nbody/nbody_data_stream_reader.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data_stream_reader.cpp b/nbody/nbody_data_stream_reader.cpp
index bdd4bd5..d78242d 100644
--- a/nbody/nbody_data_stream_reader.cpp
+++ b/nbody/nbody_data_stream_reader.cpp
@@ -226,11 +226,6 @@ nbcoord_t nbody_data_stream_reader::get_max_time() const
 
 int nbody_data_stream_reader::seek(size_t frame)
 {
-	if(frame == d->m_current_frame)
-	{
-		return 0;
-	}
-
 	if(frame >= d->m_frames.size())
 	{
 		qDebug() << "Can't seek to frame" << frame << "Out of range";
@@ -239,6 +234,11 @@ int nbody_data_stream_reader::seek(size_t frame)
 
 	const data::item&	i(d->m_frames[frame]);
 
+	if(frame == d->m_current_frame && d->m_file.isOpen() && d->m_file.pos() == i.file_pos)
+	{
+		return 0;
+	}
+
 	if(d->m_file_n != i.file_n || !d->m_file.isOpen())
 	{
 		d->m_file.close();
@@ -305,9 +305,10 @@ int nbody_data_stream_reader::read(nbody_data* bdata)
 		return -1;
 	}
 
-	if(0 != seek(d->m_current_frame))
+	if(d->m_current_frame >= d->m_frames.size() || !d->m_file.isOpen() ||
+	   d->m_file.pos() != d->m_frames[d->m_current_frame].file_pos)
 	{
-		qDebug() << "Can't seek to current frame" << d->m_current_frame;
+		qDebug() << "Not positioned at current frame" << d->m_current_frame;
 		return -1;
 	}
 
-- 
2.43.0


From bf017bb6337772b4516c675eb431e5c62977c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 08/15] fix: Zeno loader rejects numbers it cannot convert

---
 nbody/nbody_data.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/nbody/nbody_data.cpp b/nbody/nbody_data.cpp
index 705fc6e..0240ddc 100644
--- a/nbody/nbody_data.cpp
+++ b/nbody/nbody_data.cpp
@@ -580,7 +580,13 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			return false;
 		}
 		QString	mass_line(s.readLine());
-		get_mass()[i] = mass_line.toDouble();
+		bool	ok = false;
+		get_mass()[i] = mass_line.toDouble(&ok);
+		if(!ok)
+		{
+			qDebug() << "Can't convert mass" << mass_line;
+			return false;
+		}
 	}
 	for(size_t i = 0; i != count; ++i)
 	{
@@ -595,9 +601,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << pos_line;
 			return false;
 		}
-		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(),
-									   pos_line[1].toDouble(),
-									   pos_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_vertites()[i] = nbvertex_t(pos_line[0].toDouble(&ok[0]),
+									   pos_line[1].toDouble(&ok[1]),
+									   pos_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector" << pos_line;
+			return false;
+		}
 	}
 
 	for(size_t i = 0; i != count; ++i)
@@ -613,9 +625,15 @@ bool nbody_data::load_zeno_ascii(const QString& fn)
 			qDebug() << "Invalid vector dimensions" << vel_line;
 			return false;
 		}
-		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(),
-										vel_line[1].toDouble(),
-										vel_line[2].toDouble());
+		bool	ok[ZENO_DIM] = { false, false, false };
+		get_velosites()[i] = nbvertex_t(vel_line[0].toDouble(&ok[0]),
+										vel_line[1].toDouble(&ok[1]),
+										vel_line[2].toDouble(&ok[2]));
+		if(!(ok[0] && ok[1] && ok[2]))
+		{
+			qDebug() << "Can't convert vector" << vel_line;
+			return false;
+		}
 	}
 	std::fill(m_color.begin(), m_color.end(), nbcolor_t(1, 1, 1, 1));
 	m_box_size = 1;
-- 
2.43.0


From 3b6834a3c76594ea61e19ee27eb9e71655c5f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 09/15] fix: reset the starter of the Adams solver with the
 solver

---
 nbody/nbody_solver_adams.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solver_adams.cpp b/nbody/nbody_solver_adams.cpp
index ac4a124..992faf2 100644
--- a/nbody/nbody_solver_adams.cpp
+++ b/nbody/nbody_solver_adams.cpp
@@ -98,4 +98,5 @@ void nbody_solver_adams::reset()
 		engine()->fill_buffer(m_corr_data, 0);
 	}
 	m_step = 0;
+	m_starter->reset();
 }
-- 
2.43.0


From c35deafb191d9d371e747107ddb9f701b8782064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:47 +0000
Subject: [PATCH 10/15] fix: implicit Runge-Kutta solvers start from a new
 first approach after reset

---
 nbody/nbody_solver_rk_butcher.cpp | 8 +++++---
 nbody/nbody_solver_rk_butcher.h   | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_solver_rk_butcher.cpp b/nbody/nbody_solver_rk_butcher.cpp
index 5de7444..0d796c7 100644
--- a/nbody/nbody_solver_rk_butcher.cpp
+++ b/nbody/nbody_solver_rk_butcher.cpp
@@ -12,7 +12,8 @@ nbody_solver_rk_butcher::nbody_solver_rk_butcher(nbody_butcher_table* t) :
 	m_substep_subdivisions(8),
 	m_error_threshold(1e-4),
 	m_refine_steps_count(1),
-	m_correction(false)
+	m_correction(false),
+	m_need_first_approach_k(true)
 {
 }
 
@@ -79,6 +80,7 @@ void nbody_solver_rk_butcher::print_info() const
 
 void nbody_solver_rk_butcher::reset()
 {
+	m_need_first_approach_k = true;
 	if(m_ycorr_data != nullptr)
 	{
 		engine()->fill_buffer(m_ycorr_data, 0);
@@ -170,14 +172,14 @@ void nbody_solver_rk_butcher::sub_step(size_t substeps_count, nbcoord_t t, nbcoo
 	const nbcoord_t*	c = m_bt->get_c();
 	size_t				ps = engine()->problem_size();
 	size_t				coeff_count = steps + 1;
-	bool				need_first_approach_k = false;
+	bool				need_first_approach_k = m_need_first_approach_k;
 
 	std::vector<nbcoord_t>	coeff;
 	coeff.resize(coeff_count);
+	m_need_first_approach_k = false;
 
 	if(m_k.empty())
 	{
-		need_first_approach_k  = true;
 		m_k = engine()->create_buffers(sizeof(nbcoord_t) * ps, steps);
 		m_t = engine()->create_buffer(sizeof(nbcoord_t) * ps);
 		m_tmpk = engine()->create_buffer(sizeof(nbcoord_t) * ps);
diff --git a/nbody/nbody_solver_rk_butcher.h b/nbody/nbody_solver_rk_butcher.h
index 7b62772..a2b6dae 100644
--- a/nbody/nbody_solver_rk_butcher.h
+++ b/nbody/nbody_solver_rk_butcher.h
@@ -19,6 +19,7 @@ class NBODY_DLL nbody_solver_rk_butcher : public nbody_solver
 	nbcoord_t					m_error_threshold;
 	size_t						m_refine_steps_count;
 	bool						m_correction;
+	bool						m_need_first_approach_k;
 public:
 	explicit nbody_solver_rk_butcher(nbody_butcher_table*);
 	~nbody_solver_rk_butcher();
-- 
2.43.0


From 2e754eb65d7642b650cebf5a3f6cb78105bf1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:09 +0000
Subject: [PATCH 11/15] fix: building an Adams solver with an Adams starter
 comes to an end

---
 nbody/nbody_solvers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbody/nbody_solvers.cpp b/nbody/nbody_solvers.cpp
index f78e336..c497c1c 100644
--- a/nbody/nbody_solvers.cpp
+++ b/nbody/nbody_solvers.cpp
@@ -22,6 +22,7 @@ nbody_solver* nbody_create_solver(const QVariantMap& param)
 	{
 		QVariantMap	starter_param(param);
 		starter_param["solver"] = param.value("starter_solver", "euler");
+		starter_param.remove("starter_solver");
 		nbody_solver*	starter = nbody_create_solver(starter_param);
 		if(starter == NULL)
 		{
-- 
2.43.0


From 762cdef762bd24ed760445282295510f86647d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:08 +0000
Subject: [PATCH 12/15] fix: space heap with a number of bodies that is not a
 power of two

The median split put leaves outside the 2 * count nodes of the heap and rebuild updated nodes before their children.
Split so that the heap has no gaps, update level by level, and clear the radius of a leaf.
---
 nbody/nbody_space_heap.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_space_heap.cpp b/nbody/nbody_space_heap.cpp
index 84fa297..3cfdee9 100644
--- a/nbody/nbody_space_heap.cpp
+++ b/nbody/nbody_space_heap.cpp
@@ -49,10 +49,10 @@ void nbody_space_heap::rebuild(size_t count, const nbcoord_t* rx, const nbcoord_
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 	}
-	for(size_t level_count = count; level_count > 0; level_count /= 2)
+	for(size_t level_end = count; level_end > 1; level_end = (level_end + 1) / 2)
 	{
 		#pragma omp parallel for
-		for(size_t idx = level_count / 2; idx < level_count; ++idx)
+		for(size_t idx = (level_end + 1) / 2; idx < level_end; ++idx)
 		{
 			size_t	left(left_idx(idx));
 			size_t	rght(rght_idx(idx));
@@ -133,6 +133,17 @@ void nbody_space_heap::update(size_t idx, size_t left, size_t rght)
 	m_radius_sqr[idx] = (r * r) * m_distance_to_node_radius_ratio_sqr;
 }
 
+//! Bodies count at the left subtree of a heap without gaps (leaves are [count, 2 * count))
+static size_t heap_left_size(size_t count)
+{
+	size_t	level_size = 1;
+	while(level_size * 2 <= count)
+	{
+		level_size *= 2;
+	}
+	return std::min(level_size, count - level_size / 2);
+}
+
 void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* rx, const nbcoord_t* ry,
 							   const nbcoord_t* rz, const nbcoord_t* mass, size_t idx, size_t dimension)
 {
@@ -140,13 +151,14 @@ void nbody_space_heap::build_p(size_t count, size_t* indites, const nbcoord_t* r
 	{
 		m_mass_center[idx] = nbvertex_t(rx[*indites], ry[*indites], rz[*indites]);
 		m_mass[idx] = mass[*indites];
+		m_radius_sqr[idx] = 0;
 		m_body_n[idx] = *indites;
 		m_box_min[idx] = m_mass_center[idx];
 		m_box_max[idx] = m_mass_center[idx];
 		return;
 	}
 
-	size_t	left_size = count / 2;
+	size_t	left_size = heap_left_size(count);
 	size_t	right_size = count - left_size;
 	size_t*	median = indites + left_size;
 	auto comparator_x = [rx](size_t a, size_t b) { return rx[a] < rx[b];};
-- 
2.43.0


From 32b9b794a849cd190f24da3c9b71e97e60bf767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:08 +0000
Subject: [PATCH 13/15] fix: nested tree traverse with coincident bodies

An inner node of coincident bodies (or with ratio 0) has radius 0 and was visited as if it were a body.
---
 nbody/nbody_space_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbody/nbody_space_tree.h b/nbody/nbody_space_tree.h
index 6eb6378..66e38bb 100644
--- a/nbody/nbody_space_tree.h
+++ b/nbody/nbody_space_tree.h
@@ -59,7 +59,7 @@ public:
 		while(stack != stack_head)
 		{
 			node*				curr = *--stack;
-			if(curr->m_radius_sqr > 0)
+			if(curr->m_body_n == TREE_NO_BODY)
 			{
 				if(curr->m_left != NULL)
 				{
-- 
2.43.0


From ff5b5a9d727079c210c00fb7125707581706fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:08 +0000
Subject: [PATCH 14/15] fix: ah engine with rate 0 or first step not divisible
 by the rate

The rate 0 divided by zero and a sparse computation before any full one read empty neighbour lists.
---
 nbody/nbody_engine_ah.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbody/nbody_engine_ah.cpp b/nbody/nbody_engine_ah.cpp
index e915076..0682428 100644
--- a/nbody/nbody_engine_ah.cpp
+++ b/nbody/nbody_engine_ah.cpp
@@ -30,7 +30,8 @@ void nbody_engine_ah::fcompute(const nbcoord_t& t, const memory* _y, memory* _f)
 		return;
 	}
 
-	if(m_data->get_step() % m_full_recompute_rate == 0)
+	if(m_full_recompute_rate == 0 || m_univerce_force.size() != m_data->get_count() ||
+	   m_data->get_step() % m_full_recompute_rate == 0)
 	{
 		fcompute_full(y, f);
 	}
-- 
2.43.0


From 68c9395f9560f9dbceeaf98e9d2cc463621733fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 15/15] fix: OpenCL tree update with a number of bodies that is
 not a power of two

Halving the level size with truncation skipped inner nodes (192 bodies: node 2
was never updated, so the root was computed from stale data), and the global
size was not a multiple of the local one.
---
 nbody/nbody_engine_opencl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbody/nbody_engine_opencl.cpp b/nbody/nbody_engine_opencl.cpp
index 0cc46c1..4d58418 100644
--- a/nbody/nbody_engine_opencl.cpp
+++ b/nbody/nbody_engine_opencl.cpp
@@ -1046,14 +1046,14 @@ void nbody_engine_opencl::data::update_tree(
 		}
 		cl::Event::waitForEvents(events);
 	}
-	for(size_t level_count = data_size; level_count > 0; level_count /= 2)
+	for(size_t level_count = data_size; level_count > 1; level_count = (level_count + 1) / 2)
 	{
 		std::vector<cl::Event>	events;
 
 		nbcoord_t distance_to_node_radius_ratio_sqr
 			= distance_to_node_radius_ratio * distance_to_node_radius_ratio;
-		size_t		level_size = level_count / 2;
-		cl::NDRange	level_range(std::max(level_size, local_range[0]));
+		size_t		level_size = (level_count + 1) / 2;
+		cl::NDRange	level_range(((level_size + local_range[0] - 1) / local_range[0]) * local_range[0]);
 		for(size_t dev_n = 0; dev_n != device_count; ++dev_n)
 		{
 			data::devctx&	ctx(m_devices[dev_n]);
-- 
2.43.0

