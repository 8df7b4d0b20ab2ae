From 79f8711cf81707aa2e696da2b59e39468b1e5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 01/28] fix: PCPHistogram.High and Low return the bounds they
 are named after

---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index cb55701..e373c2f 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1445,10 +1445,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From 1d10eb40077582a46fb8ef8a13fffc01b56eff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 02/28] fix: composite units carry exactly the scale and
 dimension they were given

---
 metrics.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metrics.go b/metrics.go
index e373c2f..e4db54f 100644
--- a/metrics.go
+++ b/metrics.go
@@ -169,7 +169,9 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	// replace the scale and the dimension, the unit constants have a dimension of their own
+	m.repr &^= 0xF<<28 | 0xF<<16
+	m.repr |= uint32(s) & (0xF << 16)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -180,7 +182,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr &^= 0xF<<24 | 0xF<<12
+	m.repr |= uint32(t) & (0xF << 12)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -191,7 +194,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr &^= 0xF<<20 | 0xF<<8
+	m.repr |= uint32(c) & (0xF << 8)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
@@ -238,7 +242,7 @@ func (m *metricUnit) CountScale() CountUnit {
 		panic("no count scale on unit")
 	}
 
-	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))>>8)
+	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))<<8)
 }
 
 func (m *metricUnit) String() string {
-- 
2.43.0


From 253a769815ac9afa0c063290c905b4fa93834db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:51 +0000
Subject: [PATCH 03/28] fix: mmvdump semantics constants have their PCP values

---
 mmvdump/pcp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmvdump/pcp.go b/mmvdump/pcp.go
index 2bf27a0..69840d3 100644
--- a/mmvdump/pcp.go
+++ b/mmvdump/pcp.go
@@ -372,7 +372,7 @@ type Semantics int32
 
 // Values for Semantics
 const (
-	NoSemantics Semantics = 0
+	NoSemantics Semantics = iota
 	CounterSemantics
 	_
 	InstantSemantics
-- 
2.43.0


From e4037eadd05a7b4fcf66de8e40fc9e32dca93e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:52 +0000
Subject: [PATCH 04/28] fix: PCPHistogram percentiles and buckets are read
 under the metric lock

---
 metrics.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index e4db54f..21d0a31 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1563,7 +1563,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1572,7 +1576,10 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
 	b := h.h.Distribution()
+	h.mutex.RUnlock()
+
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
 		buckets[i] = &HistogramBucket{b[i].From, b[i].To, b[i].Count}
-- 
2.43.0


From 758ffbbbf49798bec32d67b90198eaea3678bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 05/28] fix: PCPSingletonMetric.String reads the value under
 the metric lock

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 21d0a31..49bd5e9 100644
--- a/metrics.go
+++ b/metrics.go
@@ -647,7 +647,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 394e24033aed2e7eb0dde9da97a1d9e0fb022040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:54 +0000
Subject: [PATCH 06/28] fix: incrementing a counter past the int64 range is an
 error, it no longer wraps to a negative value

---
 metrics.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 49bd5e9..eb9b524 100644
--- a/metrics.go
+++ b/metrics.go
@@ -729,6 +729,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v+val < v {
+		return errors.Errorf("cannot increment counter by %v, it would overflow", val)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1207,7 +1211,12 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
-	return c.setInstance(v.(int64)+inc, instance)
+	cur := v.(int64)
+	if cur+inc < cur {
+		return errors.Errorf("cannot increment instance %s by %v, it would overflow", instance, inc)
+	}
+
+	return c.setInstance(cur+inc, instance)
 }
 
 // MustInc panics if Inc fails.
-- 
2.43.0


From 3b5a6aee834f463643a533f58f62aa44507d82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/28] fix: writing at a negative or overflowing offset is an
 error, not a panic

---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..cca00d9 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || offset > w.Len()-l {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From 0829da626f177c96c9ae01f30cb7ec8d1474f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 08/28] fix: names, descriptions and string values that do not
 fit a string block are rejected

---
 instance_domain.go |  8 +++++++-
 metrics.go         | 11 +++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..7bde677 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -42,6 +42,12 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		return nil, errors.New("Only 2 description strings allowed to define an instance domain")
 	}
 
+	for _, d := range desc {
+		if len(d) >= StringLength {
+			return nil, errors.New("Instance Domain description is too long")
+		}
+	}
+
 	shortDescription, longDescription := "", ""
 
 	if len(desc) > 0 {
@@ -55,7 +61,7 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
-		if len(instance) > StringLength {
+		if len(instance) >= StringLength {
 			return nil, errors.Errorf("instance name %v is too long", instance)
 		}
 
diff --git a/metrics.go b/metrics.go
index eb9b524..490ba9f 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,8 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		// has to fit in a null terminated string block
+		return m == StringType && len(v) < StringLength
 	}
 	return false
 }
@@ -485,7 +486,7 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("Metric name cannot be empty")
 	}
 
-	if len(n) > StringLength {
+	if len(n) >= StringLength {
 		return nil, errors.New("metric name is too long")
 	}
 
@@ -493,6 +494,12 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("only 2 optional strings allowed, short and long descriptions")
 	}
 
+	for _, d := range desc {
+		if len(d) >= StringLength {
+			return nil, errors.New("metric description is too long")
+		}
+	}
+
 	shortdesc, longdesc := "", ""
 
 	if len(desc) > 0 {
-- 
2.43.0


From f1c9de1fb8bf91fe9dd0f849943ba0c50c238209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:56 +0000
Subject: [PATCH 09/28] fix: client names that do not name a file in the mmv
 directory are rejected

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 282efe3..10cdfba 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." {
+		return "", errors.Errorf("%q is not a valid file name", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From 535faefdaaf821f2ff23bf0f13a2a1eef5278375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:57 +0000
Subject: [PATCH 10/28] fix: MatchInstances does not match a list that repeats
 an instance

---
 instance_domain.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index 7bde677..1926b60 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -111,10 +111,12 @@ func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
 		return false
 	}
 
+	seen := make(map[string]bool)
 	for _, i := range ins {
-		if _, ok := indom.instances[i]; !ok {
+		if _, ok := indom.instances[i]; !ok || seen[i] {
 			return false
 		}
+		seen[i] = true
 	}
 
 	return true
-- 
2.43.0


From 71f9b78deff2c47802058c2a2211b25c8f752ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 11/28] fix: commented out lines of pcp.conf are not settings

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 041b157..596b202 100644
--- a/config.go
+++ b/config.go
@@ -17,7 +17,7 @@ var confPath string
 var config map[string]string
 
 // pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+var pat = "^([A-Z0-9_]+)=(.*)"
 
 // initConfig initializes the config constants
 func initConfig() error {
-- 
2.43.0


From 785f8076f4ee28710d5fe1919ae64515673d6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 12/28] fix: initConfig closes pcp.conf and reports a failure
 to read it

---
 config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 596b202..185dc38 100644
--- a/config.go
+++ b/config.go
@@ -39,6 +39,7 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	// if we reach at this point, it means we have a valid config
 	// that can be read, so we can make the map non-nil
@@ -52,5 +53,5 @@ func initConfig() error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
-- 
2.43.0


From 37faecf9c0ff1fe9a304639a5a9196c31949447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:00 +0000
Subject: [PATCH 13/28] fix: NewMemoryMappedWriter closes the file when it
 fails

---
 bytewriter/memorymappedwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..99a484d 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -39,14 +39,17 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 
 	l, err := f.Write(make([]byte, size))
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 	if l < size {
+		_ = f.Close()
 		return nil, errors.Errorf("Could not initialize %d bytes", size)
 	}
 
 	b, err := mmap.Map(f, mmap.RDWR, 0)
 	if err != nil {
+		_ = f.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From 6c8de81e171c796c9a895b00a6a6c5e6190a8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 14/28] fix: writing to an unmapped MemoryMappedWriter is an
 error, not a fault

---
 bytewriter/memorymappedwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 99a484d..7e375b0 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -68,6 +68,9 @@ func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 		return err
 	}
 
+	// the mapping is gone, writes have to fail from here on
+	b.buffer = nil
+
 	if err := b.handle.Close(); err != nil {
 		return err
 	}
-- 
2.43.0


From 419d85e5abe284ebd0ba37070bdda8aa5034a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 15/28] fix: registration checks and inserts in one critical
 section, unsupported types are errors

---
 registry.go | 100 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 59 insertions(+), 41 deletions(-)

diff --git a/registry.go b/registry.go
index 1d66249..12df55c 100644
--- a/registry.go
+++ b/registry.go
@@ -49,9 +49,7 @@ type PCPRegistry struct {
 	instanceDomains map[string]*PCPInstanceDomain // a cache for instanceDomains
 	metrics         map[string]PCPMetric          // a cache for metrics
 
-	// locks
-	indomlock   sync.RWMutex
-	metricslock sync.RWMutex
+	lock sync.RWMutex // guards everything in the registry
 
 	// offsets
 	instanceoffset int
@@ -79,35 +77,43 @@ func NewPCPRegistry() *PCPRegistry {
 
 // InstanceCount returns the number of instances across all indoms in the registry
 func (r *PCPRegistry) InstanceCount() int {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return r.instanceCount
 }
 
 // InstanceDomainCount returns the number of instance domains in the registry
 func (r *PCPRegistry) InstanceDomainCount() int {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return len(r.instanceDomains)
 }
 
 // MetricCount returns the number of metrics in the registry
 func (r *PCPRegistry) MetricCount() int {
-	r.metricslock.RLock()
-	defer r.metricslock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	return len(r.metrics)
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.instanceCount
 	}
 
 	return r.stringcount
@@ -115,8 +121,8 @@ func (r *PCPRegistry) StringCount() int {
 
 // HasInstanceDomain returns true if the registry already has an indom of the specified name
 func (r *PCPRegistry) HasInstanceDomain(name string) bool {
-	r.indomlock.RLock()
-	defer r.indomlock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	_, present := r.instanceDomains[name]
 	return present
@@ -124,27 +130,16 @@ func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 
 // HasMetric returns true if the registry already has a metric of the specified name
 func (r *PCPRegistry) HasMetric(name string) bool {
-	r.metricslock.RLock()
-	defer r.metricslock.RUnlock()
+	r.lock.RLock()
+	defer r.lock.RUnlock()
 
 	_, present := r.metrics[name]
 	return present
 }
 
-// AddInstanceDomain will add a new instance domain to the current registry
-func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
-	if r.HasInstanceDomain(indom.Name()) {
-		return errors.New("InstanceDomain is already defined for the current registry")
-	}
-
-	r.indomlock.Lock()
-	defer r.indomlock.Unlock()
-
-	if r.mapped {
-		return errors.New("Cannot add an indom when a mapping is active")
-	}
-
-	r.instanceDomains[indom.Name()] = indom.(*PCPInstanceDomain)
+// addInstanceDomain adds an indom, it has to be called with the lock held
+func (r *PCPRegistry) addInstanceDomain(indom *PCPInstanceDomain) {
+	r.instanceDomains[indom.Name()] = indom
 	r.instanceCount += indom.InstanceCount()
 
 	if !r.version2 {
@@ -155,17 +150,38 @@ func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
 		}
 	}
 
-	if indom.(*PCPInstanceDomain).shortDescription != "" {
+	if indom.shortDescription != "" {
 		r.stringcount++
 	}
 
-	if indom.(*PCPInstanceDomain).longDescription != "" {
+	if indom.longDescription != "" {
 		r.stringcount++
 	}
+}
+
+// AddInstanceDomain will add a new instance domain to the current registry
+func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
+	pcpindom, ok := indom.(*PCPInstanceDomain)
+	if !ok {
+		return errors.Errorf("InstanceDomain type %T is not supported by the registry", indom)
+	}
+
+	r.lock.Lock()
+	defer r.lock.Unlock()
 
+	if r.mapped {
+		return errors.New("Cannot add an indom when a mapping is active")
+	}
+
+	if _, present := r.instanceDomains[pcpindom.Name()]; present {
+		return errors.New("InstanceDomain is already defined for the current registry")
+	}
+
+	r.addInstanceDomain(pcpindom)
 	return nil
 }
 
+// addMetric adds a metric, it has to be called with the lock held
 func (r *PCPRegistry) addMetric(m PCPMetric) {
 	r.metrics[m.Name()] = m
 
@@ -194,27 +210,29 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	pcpm, ok := m.(PCPMetric)
+	if !ok {
+		return errors.Errorf("metric type %T is not supported by the registry", m)
+	}
+
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[pcpm.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
-	pcpm := m.(PCPMetric)
-
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
-		if err != nil {
-			return err
+	if indom := pcpm.Indom(); indom != nil {
+		if _, present := r.instanceDomains[indom.Name()]; !present {
+			r.addInstanceDomain(indom)
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
-- 
2.43.0


From b5fe9435b4519435df4b1eeeebf919b9ff6e0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 16/28] fix: a metric whose instance domain differs from the
 registered one of that name is rejected, values refer to the registered
 instances

---
 client.go   | 4 +++-
 registry.go | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 10cdfba..66d1e9f 100644
--- a/client.go
+++ b/client.go
@@ -539,7 +539,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	// the metric's indom can be a different object from the registered one
+	// with the same instances, only the registered one is written
+	for name, i := range c.r.instanceDomains[m.indom.Name()].instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
diff --git a/registry.go b/registry.go
index 12df55c..705c671 100644
--- a/registry.go
+++ b/registry.go
@@ -228,7 +228,12 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if indom := pcpm.Indom(); indom != nil {
-		if _, present := r.instanceDomains[indom.Name()]; !present {
+		registered, present := r.instanceDomains[indom.Name()]
+		if present && !registered.MatchInstances(indom.Instances()) {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", indom.Name())
+		}
+
+		if !present {
 			r.addInstanceDomain(indom)
 		}
 	}
-- 
2.43.0


From 36a787bd49a3dab2ff52d6a1a6226dbaa4d2b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 17/28] fix: a failed AddMetricByString leaves the registry
 unchanged

---
 registry.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/registry.go b/registry.go
index 705c671..e2fc61e 100644
--- a/registry.go
+++ b/registry.go
@@ -312,23 +312,23 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		return nil, errors.New("to define an instance metric, a Instances type is required")
 	}
 
-	var (
-		id  InstanceDomain
-		err error
-	)
-
-	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+	r.lock.RLock()
+	id, present := r.instanceDomains[indom]
+	r.lock.RUnlock()
+
+	// a new indom is added together with the metric in AddMetric,
+	// so that a failure leaves the registry as it was
+	if !present {
+		var err error
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
-	} else {
+	} else if !id.MatchInstances(instances) {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
 
-	m, err := NewPCPInstanceMetric(mp, name, id.(*PCPInstanceDomain), t, s, u)
+	m, err := NewPCPInstanceMetric(mp, name, id, t, s, u)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ee38d466a1ae9d99eeaf62cdfae77df7dfb956cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 18/28] fix: metric types that cannot be written are rejected,
 they deadlocked Start

---
 client.go   | 71 +++++++++++++++++++++++++++++------------------------
 registry.go |  2 +-
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/client.go b/client.go
index 66d1e9f..a676bad 100644
--- a/client.go
+++ b/client.go
@@ -461,43 +461,50 @@ func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
 	}
 }
 
-func (c *PCPClient) writeMetrics() {
-	var wg sync.WaitGroup
+// storage returns where a metric keeps its values, exactly one of the results
+// is not nil for every type of metric that can be written
+func storage(m PCPMetric) (*pcpSingletonMetric, *pcpInstanceMetric) {
+	switch metric := m.(type) {
+	case *PCPSingletonMetric:
+		return metric.pcpSingletonMetric, nil
+	case *PCPCounter:
+		return metric.pcpSingletonMetric, nil
+	case *PCPGauge:
+		return metric.pcpSingletonMetric, nil
+	case *PCPTimer:
+		return metric.pcpSingletonMetric, nil
+	case *PCPInstanceMetric:
+		return nil, metric.pcpInstanceMetric
+	case *PCPCounterVector:
+		return nil, metric.pcpInstanceMetric
+	case *PCPGaugeVector:
+		return nil, metric.pcpInstanceMetric
+	case *PCPHistogram:
+		return nil, metric.pcpInstanceMetric
+	}
+
+	return nil, nil
+}
 
-	launchSingletonMetric := func(metric *pcpSingletonMetric) {
-		go func() {
-			c.writeSingletonMetric(metric)
-			wg.Done()
-		}()
-	}
+// writable returns true if a metric is of a type that can be written
+func writable(m PCPMetric) bool {
+	singleton, instance := storage(m)
+	return singleton != nil || instance != nil
+}
 
-	launchInstanceMetric := func(metric *pcpInstanceMetric) {
-		go func() {
-			c.writeInstanceMetric(metric)
-			wg.Done()
-		}()
-	}
+func (c *PCPClient) writeMetrics() {
+	var wg sync.WaitGroup
 
 	wg.Add(c.r.MetricCount())
 	for _, m := range c.r.metrics {
-		switch metric := m.(type) {
-		case *PCPSingletonMetric:
-			launchSingletonMetric(metric.pcpSingletonMetric)
-		case *PCPCounter:
-			launchSingletonMetric(metric.pcpSingletonMetric)
-		case *PCPGauge:
-			launchSingletonMetric(metric.pcpSingletonMetric)
-		case *PCPTimer:
-			launchSingletonMetric(metric.pcpSingletonMetric)
-		case *PCPInstanceMetric:
-			launchInstanceMetric(metric.pcpInstanceMetric)
-		case *PCPCounterVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
-		case *PCPGaugeVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
-		case *PCPHistogram:
-			launchInstanceMetric(metric.pcpInstanceMetric)
-		}
+		go func(m PCPMetric) {
+			if singleton, instance := storage(m); singleton != nil {
+				c.writeSingletonMetric(singleton)
+			} else {
+				c.writeInstanceMetric(instance)
+			}
+			wg.Done()
+		}(m)
 	}
 
 	wg.Wait()
diff --git a/registry.go b/registry.go
index e2fc61e..2ace7e5 100644
--- a/registry.go
+++ b/registry.go
@@ -211,7 +211,7 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
 	pcpm, ok := m.(PCPMetric)
-	if !ok {
+	if !ok || !writable(pcpm) {
 		return errors.Errorf("metric type %T is not supported by the registry", m)
 	}
 
-- 
2.43.0


From 6f74e71952d9073cb70877503093d9479a19d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 19/28] fix: a registry is frozen before its length is taken,
 one client at a time can map it

---
 client.go   | 15 ++++++++++-----
 registry.go | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index a676bad..d4243c0 100644
--- a/client.go
+++ b/client.go
@@ -152,7 +152,7 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.r.mapped {
+	if c.r.isMapped() {
 		return errors.New("cannot set mmv flag for an active client")
 	}
 
@@ -181,7 +181,7 @@ func (c *PCPClient) Length() int {
 		MetricLength   = Metric1Length
 	)
 
-	if c.r.version2 {
+	if c.r.isVersion2() {
 		InstanceLength = Instance2Length
 		MetricLength = Metric2Length
 	}
@@ -200,16 +200,21 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// before the length is taken, it is what the data has to fit in
+	if err := c.r.freeze(); err != nil {
+		return errors.Wrap(err, "cannot start client")
+	}
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.unfreeze()
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -641,13 +646,13 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if c.writer == nil {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
 	c.stop()
 
-	c.r.mapped = false
+	defer c.r.unfreeze()
 
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
diff --git a/registry.go b/registry.go
index 2ace7e5..fa3f08c 100644
--- a/registry.go
+++ b/registry.go
@@ -75,6 +75,40 @@ func NewPCPRegistry() *PCPRegistry {
 	}
 }
 
+// freeze marks the registry as mapped, nothing can be added until it is unfrozen
+func (r *PCPRegistry) freeze() error {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	if r.mapped {
+		return errors.New("a mapping of the registry is already active")
+	}
+
+	r.mapped = true
+	return nil
+}
+
+func (r *PCPRegistry) unfreeze() {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+
+	r.mapped = false
+}
+
+func (r *PCPRegistry) isMapped() bool {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.mapped
+}
+
+func (r *PCPRegistry) isVersion2() bool {
+	r.lock.RLock()
+	defer r.lock.RUnlock()
+
+	return r.version2
+}
+
 // InstanceCount returns the number of instances across all indoms in the registry
 func (r *PCPRegistry) InstanceCount() int {
 	r.lock.RLock()
-- 
2.43.0


From b1667a5b6ec5d1e7d8845a971ad71ca658661f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:39 +0000
Subject: [PATCH 20/28] fix: metrics are published and detached under their own
 lock, so that setting one during Start or after Stop is safe

---
 client.go | 56 +++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/client.go b/client.go
index d4243c0..e6fc180 100644
--- a/client.go
+++ b/client.go
@@ -466,34 +466,35 @@ func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
 	}
 }
 
-// storage returns where a metric keeps its values, exactly one of the results
-// is not nil for every type of metric that can be written
-func storage(m PCPMetric) (*pcpSingletonMetric, *pcpInstanceMetric) {
+// storage returns where a metric keeps its values and the lock that guards them,
+// exactly one of the first two results is not nil for every type of metric that
+// can be written
+func storage(m PCPMetric) (*pcpSingletonMetric, *pcpInstanceMetric, sync.Locker) {
 	switch metric := m.(type) {
 	case *PCPSingletonMetric:
-		return metric.pcpSingletonMetric, nil
+		return metric.pcpSingletonMetric, nil, &metric.mutex
 	case *PCPCounter:
-		return metric.pcpSingletonMetric, nil
+		return metric.pcpSingletonMetric, nil, &metric.mutex
 	case *PCPGauge:
-		return metric.pcpSingletonMetric, nil
+		return metric.pcpSingletonMetric, nil, &metric.mutex
 	case *PCPTimer:
-		return metric.pcpSingletonMetric, nil
+		return metric.pcpSingletonMetric, nil, &metric.mutex
 	case *PCPInstanceMetric:
-		return nil, metric.pcpInstanceMetric
+		return nil, metric.pcpInstanceMetric, &metric.mutex
 	case *PCPCounterVector:
-		return nil, metric.pcpInstanceMetric
+		return nil, metric.pcpInstanceMetric, &metric.mutex
 	case *PCPGaugeVector:
-		return nil, metric.pcpInstanceMetric
+		return nil, metric.pcpInstanceMetric, &metric.mutex
 	case *PCPHistogram:
-		return nil, metric.pcpInstanceMetric
+		return nil, metric.pcpInstanceMetric, &metric.mutex
 	}
 
-	return nil, nil
+	return nil, nil, nil
 }
 
 // writable returns true if a metric is of a type that can be written
 func writable(m PCPMetric) bool {
-	singleton, instance := storage(m)
+	singleton, instance, _ := storage(m)
 	return singleton != nil || instance != nil
 }
 
@@ -503,10 +504,10 @@ func (c *PCPClient) writeMetrics() {
 	wg.Add(c.r.MetricCount())
 	for _, m := range c.r.metrics {
 		go func(m PCPMetric) {
-			if singleton, instance := storage(m); singleton != nil {
-				c.writeSingletonMetric(singleton)
+			if singleton, instance, lock := storage(m); singleton != nil {
+				c.writeSingletonMetric(singleton, lock)
 			} else {
-				c.writeInstanceMetric(instance)
+				c.writeInstanceMetric(instance, lock)
 			}
 			wg.Done()
 		}(m)
@@ -515,7 +516,7 @@ func (c *PCPClient) writeMetrics() {
 	wg.Wait()
 }
 
-func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
+func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric, lock sync.Locker) {
 	var wg sync.WaitGroup
 	wg.Add(2)
 
@@ -530,7 +531,9 @@ func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
 	c.valueoffsetc <- off + ValueLength
 
 	go func(offset int) {
+		lock.Lock()
 		m.update = c.writeValue(m.t, m.val, offset)
+		lock.Unlock()
 		wg.Done()
 	}(off)
 
@@ -540,7 +543,7 @@ func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
 	wg.Wait()
 }
 
-func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
+func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric, lock sync.Locker) {
 	var wg sync.WaitGroup
 	wg.Add(1 + m.Indom().InstanceCount())
 
@@ -558,7 +561,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		c.valueoffsetc <- off + ValueLength
 
 		go func(i *instanceValue, offset int) {
+			lock.Lock()
 			i.update = c.writeValue(m.t, i.val, offset)
+			lock.Unlock()
 			wg.Done()
 		}(m.vals[name], off)
 
@@ -664,6 +669,21 @@ func (c *PCPClient) Stop() error {
 }
 
 func (c *PCPClient) stop() {
+	// no metric can write to the mapping after this
+	for _, m := range c.r.metrics {
+		singleton, instance, lock := storage(m)
+
+		lock.Lock()
+		if singleton != nil {
+			singleton.update = nil
+		} else {
+			for _, v := range instance.vals {
+				v.update = nil
+			}
+		}
+		lock.Unlock()
+	}
+
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
-- 
2.43.0


From fbd85dfdacbff95dd90f3c2ebb713c1eaf9d4af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:41 +0000
Subject: [PATCH 21/28] fix: an instance domain without instances has a TOC
 entry of its own, Start panicked on it

---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index e6fc180..e49b9c4 100644
--- a/client.go
+++ b/client.go
@@ -163,8 +163,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From 25f0372923866debeb587f513ed40896c297eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 22/28] fix: clients that share an instance domain do not start
 at the same time

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index e49b9c4..7ce7170 100644
--- a/client.go
+++ b/client.go
@@ -199,6 +199,10 @@ func (c *PCPClient) Length() int {
 		(c.r.StringCount() * StringLength)
 }
 
+// startlock serializes starting clients, as metrics in different registries can
+// share an instance domain, and the offsets of its instances while they are written
+var startlock sync.Mutex
+
 // Start dumps existing registry data
 func (c *PCPClient) Start() error {
 	c.mutex.Lock()
@@ -218,7 +222,11 @@ func (c *PCPClient) Start() error {
 	}
 
 	c.writer = writer
+
+	startlock.Lock()
 	c.start()
+	startlock.Unlock()
+
 	return nil
 }
 
-- 
2.43.0


From 877f666ac874e027caf49fc3e411b10e6ab232f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 23/28] fix: mmvdump bounds checks cannot be bypassed by an
 offset that overflows

---
 mmvdump/mmvdump.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..f26ae96 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -21,6 +21,12 @@ import (
 	"github.com/pkg/errors"
 )
 
+// fits returns true if there are length bytes in data starting at offset
+func fits(data []byte, offset, length uint64) bool {
+	n := uint64(len(data))
+	return length <= n && offset <= n-length
+}
+
 func readHeader(data []byte) (*Header, error) {
 	if uint64(len(data)) < HeaderLength {
 		return nil, errors.New("file too small to contain a valid Header")
@@ -40,7 +46,7 @@ func readHeader(data []byte) (*Header, error) {
 }
 
 func readToc(data []byte, offset uint64) (*Toc, error) {
-	if uint64(len(data)) < offset+TocLength {
+	if !fits(data, offset, TocLength) {
 		return nil, errors.New("Incomplete/Partially Written TOC")
 	}
 
@@ -55,7 +61,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 		InstanceLength = Instance2Length
 	}
 
-	if uint64(len(data)) < offset+InstanceLength {
+	if !fits(data, offset, InstanceLength) {
 		return nil, errors.New("Incomplete/Partially Written Instance")
 	}
 
@@ -67,7 +73,7 @@ func readInstance(data []byte, offset uint64, version int32) (interface{}, error
 }
 
 func readInstanceDomain(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+InstanceDomainLength {
+	if !fits(data, offset, InstanceDomainLength) {
 		return nil, errors.New("Incomplete/Partially Written InstanceDomain")
 	}
 
@@ -80,7 +86,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 		MetricLength = Metric2Length
 	}
 
-	if uint64(len(data)) < offset+MetricLength {
+	if !fits(data, offset, MetricLength) {
 		return nil, errors.New("Incomplete/Partially Written Metric")
 	}
 
@@ -92,7 +98,7 @@ func readMetric(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+ValueLength {
+	if !fits(data, offset, ValueLength) {
 		return nil, errors.New("Incomplete/Partially Written Value")
 	}
 
@@ -100,7 +106,7 @@ func readValue(data []byte, offset uint64, version int32) (interface{}, error) {
 }
 
 func readString(data []byte, offset uint64, version int32) (interface{}, error) {
-	if uint64(len(data)) < offset+StringLength {
+	if !fits(data, offset, StringLength) {
 		return nil, errors.New("Incomplete/Partially Written String")
 	}
 
-- 
2.43.0


From fcff223337996bf5f3d7f7884c612c5f335429bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 24/28] fix: mmvdump rejects versions it cannot read

---
 mmvdump/mmvdump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index f26ae96..306d4ab 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -38,6 +38,10 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Bad Magic: %v", string(m))
 	}
 
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("Unsupported version: %v", header.Version)
+	}
+
 	if header.G1 != header.G2 {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
-- 
2.43.0


From fa443a018243d59f4f3af91944a43ba42d0dc9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 25/28] fix: mmvdump rejects counts that do not fit in the data

---
 mmvdump/mmvdump.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 306d4ab..33f6068 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -118,6 +118,10 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if count < 0 || uint64(count) > uint64(len(data))/TocLength {
+		return nil, errors.Errorf("Invalid TOC count: %v", count)
+	}
+
 	tocs := make([]*Toc, count)
 
 	for i := int32(0); i < count; i++ {
@@ -132,6 +136,10 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 }
 
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
+	if count < 0 || uint64(count) > uint64(len(data))/itemlength {
+		return nil, errors.Errorf("Invalid item count: %v", count)
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(int(count))
 
-- 
2.43.0


From 2cab8edc6435c358f0532e09264d415042c0e207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 26/28] fix: mmvdump item readers share their error under a
 lock

---
 mmvdump/mmvdump.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 33f6068..1e6750b 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -152,16 +152,16 @@ func readItems(data []byte, offset uint64, count int32, itemlength uint64, readI
 
 	for i := int32(0); i < count; i, offset = i+1, offset+itemlength {
 		go func(offset uint64) {
-			if err == nil {
-				item, ierr := readItem(data, offset, version)
-				if ierr == nil {
-					m.Lock()
-					items[offset] = item
-					m.Unlock()
-				} else {
-					err = ierr
-				}
+			item, ierr := readItem(data, offset, version)
+
+			m.Lock()
+			if ierr == nil {
+				items[offset] = item
+			} else {
+				err = ierr
 			}
+			m.Unlock()
+
 			wg.Done()
 		}(offset)
 	}
-- 
2.43.0


From 96a2d266b12b4293f2daea18e417da0f56e9f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 27/28] fix: mmvdump rejects unknown and repeated TOCs, it
 deadlocked on the former and raced on the latter

---
 mmvdump/mmvdump.go | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 1e6750b..8102d4a 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -123,12 +123,23 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 	}
 
 	tocs := make([]*Toc, count)
+	seen := make(map[TocType]bool)
 
 	for i := int32(0); i < count; i++ {
 		t, err := readToc(data, HeaderLength+uint64(i)*TocLength)
 		if err != nil {
 			return nil, err
 		}
+
+		if t.Type < TocIndoms || t.Type > TocStrings {
+			return nil, errors.Errorf("Unknown TOC type: %v", int32(t.Type))
+		}
+
+		if seen[t.Type] {
+			return nil, errors.Errorf("More than one TOC of type: %v", t.Type)
+		}
+
+		seen[t.Type] = true
 		tocs[i] = t
 	}
 
@@ -263,36 +274,57 @@ func readComponents(data []byte, tocs []*Toc, version int32) (
 	strings map[uint64]*String,
 	ierr, inerr, merr, verr, serr error,
 ) {
-	var wg sync.WaitGroup
+	var (
+		wg sync.WaitGroup
+		m  sync.Mutex
+	)
+
 	wg.Add(len(tocs))
 
 	for _, toc := range tocs {
 		switch toc.Type {
 		case TocInstances:
 			go func(offset uint64, count int32) {
-				instances, ierr = readInstances(data, offset, count, version)
+				items, err := readInstances(data, offset, count, version)
+				m.Lock()
+				instances, ierr = items, err
+				m.Unlock()
 				wg.Done()
 			}(toc.Offset, toc.Count)
 		case TocIndoms:
 			go func(offset uint64, count int32) {
-				indoms, inerr = readInstanceDomains(data, offset, count, version)
+				items, err := readInstanceDomains(data, offset, count, version)
+				m.Lock()
+				indoms, inerr = items, err
+				m.Unlock()
 				wg.Done()
 			}(toc.Offset, toc.Count)
 		case TocMetrics:
 			go func(offset uint64, count int32) {
-				metrics, merr = readMetrics(data, offset, count, version)
+				items, err := readMetrics(data, offset, count, version)
+				m.Lock()
+				metrics, merr = items, err
+				m.Unlock()
 				wg.Done()
 			}(toc.Offset, toc.Count)
 		case TocValues:
 			go func(offset uint64, count int32) {
-				values, verr = readValues(data, offset, count, version)
+				items, err := readValues(data, offset, count, version)
+				m.Lock()
+				values, verr = items, err
+				m.Unlock()
 				wg.Done()
 			}(toc.Offset, toc.Count)
 		case TocStrings:
 			go func(offset uint64, count int32) {
-				strings, serr = readStrings(data, offset, count, version)
+				items, err := readStrings(data, offset, count, version)
+				m.Lock()
+				strings, serr = items, err
+				m.Unlock()
 				wg.Done()
 			}(toc.Offset, toc.Count)
+		default:
+			wg.Done()
 		}
 	}
 
-- 
2.43.0


From 271770cb5ba74396901fb41cb8297561b57a67d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 28/28] fix: mmvdump.Write reports dangling references as
 errors, it panicked on them

---
 mmvdump/writer.go | 135 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 108 insertions(+), 27 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..79e1271 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,22 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
-	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+func stringAt(offset uint64, strings map[uint64]*String) (string, error) {
+	str := strings[offset]
+	if str == nil {
+		return "", errors.Errorf("no string at offset %v", offset)
+	}
+	return string(str.Payload[:]), nil
+}
+
+func instanceName(i Instance, strings map[uint64]*String) (string, error) {
+	switch instance := i.(type) {
+	case *Instance1:
+		return string(instance.External[:]), nil
+	case *Instance2:
+		return stringAt(instance.External, strings)
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return "", errors.Errorf("cannot get the name of an instance of type %T", i)
 }
 
 func writeInstance(
@@ -23,9 +34,21 @@ func writeInstance(
 	strings map[uint64]*String,
 ) error {
 	i := instances[offset]
+	if i == nil {
+		return errors.Errorf("no instance at offset %v", offset)
+	}
+
 	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	if indom == nil {
+		return errors.Errorf("no indom at offset %v", i.Indom())
+	}
+
+	Name, err := instanceName(i, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -36,6 +59,10 @@ func writeInstanceDomain(
 	strings map[uint64]*String,
 ) error {
 	indom := indoms[offset]
+	if indom == nil {
+		return errors.Errorf("no indom at offset %v", offset)
+	}
+
 	_, err := fmt.Fprintf(w, "\t[%v/%v] %d instances, starting at offset %d\n", indom.Serial, offset, indom.Count, indom.Offset)
 	if err != nil {
 		return err
@@ -46,7 +73,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -56,7 +88,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -64,11 +101,14 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
-	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+func metricName(m Metric, strings map[uint64]*String) (string, error) {
+	switch metric := m.(type) {
+	case *Metric1:
+		return string(metric.Name[:]), nil
+	case *Metric2:
+		return stringAt(metric.Name, strings)
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return "", errors.Errorf("cannot get the name of a metric of type %T", m)
 }
 
 func writeMetric(
@@ -79,13 +119,20 @@ func writeMetric(
 	strings map[uint64]*String,
 ) error {
 	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	if m == nil {
+		return errors.Errorf("no metric at offset %v", offset)
+	}
+
+	Name, err := metricName(m, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +156,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		text, err := stringAt(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -119,7 +171,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		text, err := stringAt(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -137,16 +194,25 @@ func writeValue(
 	strings map[uint64]*String,
 ) error {
 	v := values[offset]
+	if v == nil {
+		return errors.Errorf("no value at offset %v", offset)
+	}
+
 	m := metrics[v.Metric]
+	if m == nil {
+		return errors.Errorf("no metric at offset %v", v.Metric)
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	Name, err := metricName(m, strings)
+	if err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, Name); err != nil {
+		return err
+	}
+
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -154,16 +220,24 @@ func writeValue(
 			return err
 		}
 	} else {
-		v, ok := strings[uint64(v.Extra)]
-		if !ok {
-			return errors.Errorf("invalid string address")
+		a, err = stringAt(uint64(v.Extra), strings)
+		if err != nil {
+			return err
 		}
-		a = string(v.Payload[:])
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
 		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		if i == nil {
+			return errors.Errorf("no instance at offset %v", v.Instance)
+		}
+
+		Name, err := instanceName(i, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), Name); err != nil {
 			return err
 		}
 	}
@@ -173,7 +247,12 @@ func writeValue(
 }
 
 func writeString(w io.Writer, offset uint64, strings map[uint64]*String) error {
-	_, err := fmt.Fprintf(w, "\t[%v] %v\n", offset, string(strings[offset].Payload[:]))
+	str, err := stringAt(offset, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v] %v\n", offset, str)
 	return err
 }
 
@@ -225,6 +304,8 @@ func writeComponents(
 			itemtype = "strings"
 			itemsize = StringLength
 			writeItem = func(off uint64) error { return writeString(w, off, strings) }
+		default:
+			return errors.Errorf("unknown TOC type: %v", int32(toc.Type))
 		}
 
 		if _, err := fmt.Fprintf(w, "TOC[%v], offset: %v, %v offset: %v (%v entries)\n", ti, toff, itemtype, toc.Offset, toc.Count); err != nil {
-- 
2.43.0

