//! The four kinds of metric behind one interface, so that every property is checked on all of them.
use prometrics::label::{Labels, LabelsMut};
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::timestamp::{Timestamp, TimestampMut};
use prometrics::*;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Counter,
    Gauge,
    Summary,
    Histogram,
}
pub const KINDS: [Kind; 4] = [Kind::Counter, Kind::Gauge, Kind::Summary, Kind::Histogram];
impl Kind {
    pub fn reserved(self) -> Option<&'static str> {
        match self {
            Kind::Summary => Some("quantile"),
            Kind::Histogram => Some("le"),
            _ => None,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Kind::Counter => "counter",
            Kind::Gauge => "gauge",
            Kind::Summary => "summary",
            Kind::Histogram => "histogram",
        }
    }
}

#[derive(Debug)]
pub enum AnyBuilder {
    Counter(CounterBuilder),
    Gauge(GaugeBuilder),
    Summary(SummaryBuilder),
    Histogram(HistogramBuilder),
}
macro_rules! each {
    ($s:expr, $b:ident, $e:expr) => {
        match $s {
            AnyBuilder::Counter($b) => {
                $e;
            }
            AnyBuilder::Gauge($b) => {
                $e;
            }
            AnyBuilder::Summary($b) => {
                $e;
            }
            AnyBuilder::Histogram($b) => {
                $e;
            }
        }
    };
}
impl AnyBuilder {
    pub fn new(k: Kind, name: &str) -> Self {
        match k {
            Kind::Counter => AnyBuilder::Counter(CounterBuilder::new(name)),
            Kind::Gauge => AnyBuilder::Gauge(GaugeBuilder::new(name)),
            Kind::Summary => AnyBuilder::Summary(SummaryBuilder::new(name, Duration::from_secs(1000))),
            Kind::Histogram => AnyBuilder::Histogram(HistogramBuilder::new(name)),
        }
    }
    pub fn from(k: Kind, b: &MetricBuilder, name: &str) -> Self {
        match k {
            Kind::Counter => AnyBuilder::Counter(b.counter(name)),
            Kind::Gauge => AnyBuilder::Gauge(b.gauge(name)),
            Kind::Summary => AnyBuilder::Summary(b.summary(name, Duration::from_secs(1000))),
            Kind::Histogram => AnyBuilder::Histogram(b.histogram(name)),
        }
    }
    pub fn namespace(&mut self, s: &str) -> &mut Self {
        each!(self, b, b.namespace(s));
        self
    }
    pub fn subsystem(&mut self, s: &str) -> &mut Self {
        each!(self, b, b.subsystem(s));
        self
    }
    pub fn help(&mut self, s: &str) -> &mut Self {
        each!(self, b, b.help(s));
        self
    }
    pub fn label(&mut self, k: &str, v: &str) -> &mut Self {
        each!(self, b, b.label(k, v));
        self
    }
    pub fn registry(&mut self, r: Registry) -> &mut Self {
        each!(self, b, b.registry(r));
        self
    }
    pub fn default_registry(&mut self) -> &mut Self {
        each!(self, b, b.default_registry());
        self
    }
    pub fn finish(&self) -> Result<Any> {
        Ok(match self {
            AnyBuilder::Counter(b) => Any::Counter(b.finish()?),
            AnyBuilder::Gauge(b) => Any::Gauge(b.finish()?),
            AnyBuilder::Summary(b) => Any::Summary(b.finish()?),
            AnyBuilder::Histogram(b) => Any::Histogram(b.finish()?),
        })
    }
}

#[derive(Debug, Clone)]
pub enum Any {
    Counter(Counter),
    Gauge(Gauge),
    Summary(Summary),
    Histogram(Histogram),
}
macro_rules! eachm {
    ($s:expr, $b:ident, $e:expr) => {
        match $s {
            Any::Counter($b) => $e,
            Any::Gauge($b) => $e,
            Any::Summary($b) => $e,
            Any::Histogram($b) => $e,
        }
    };
}
impl Any {
    pub fn kind(&self) -> Kind {
        match self {
            Any::Counter(_) => Kind::Counter,
            Any::Gauge(_) => Kind::Gauge,
            Any::Summary(_) => Kind::Summary,
            Any::Histogram(_) => Kind::Histogram,
        }
    }
    pub fn name(&self) -> &MetricName {
        eachm!(self, m, m.metric_name())
    }
    pub fn help(&self) -> Option<&str> {
        eachm!(self, m, m.help())
    }
    pub fn labels(&self) -> &Labels {
        eachm!(self, m, m.labels())
    }
    pub fn labels_mut(&mut self) -> LabelsMut {
        eachm!(self, m, m.labels_mut())
    }
    pub fn timestamp(&self) -> &Timestamp {
        eachm!(self, m, m.timestamp())
    }
    pub fn timestamp_mut(&self) -> TimestampMut {
        eachm!(self, m, m.timestamp_mut())
    }
    pub fn text(&self) -> String {
        eachm!(self, m, m.to_string())
    }
    pub fn metric(&self) -> Metric {
        match self.clone() {
            Any::Counter(m) => m.into(),
            Any::Gauge(m) => m.into(),
            Any::Summary(m) => m.into(),
            Any::Histogram(m) => m.into(),
        }
    }
    pub fn register(&self, r: &Registry) {
        eachm!(self, m, r.register(m.collector()))
    }
    /// Adds an amount that every kind can take; the total is readable in the gathered families.
    pub fn feed(&self, x: f64) {
        match self {
            Any::Counter(m) => {
                let _ = m.add(x);
            }
            Any::Gauge(m) => m.add(x),
            Any::Summary(m) => m.observe(x),
            Any::Histogram(m) => m.observe(x),
        }
    }
    pub fn total(&self) -> f64 {
        match self {
            Any::Counter(m) => m.value(),
            Any::Gauge(m) => m.value(),
            Any::Summary(m) => m.sum(),
            Any::Histogram(m) => m.sum(),
        }
    }
    pub fn count(&self) -> Option<u64> {
        match self {
            Any::Summary(m) => Some(m.count()),
            Any::Histogram(m) => Some(m.count()),
            _ => None,
        }
    }
    pub fn label_vec(&self) -> Vec<(String, String)> {
        label_vec(self.labels())
    }
}
pub fn label_vec(l: &Labels) -> Vec<(String, String)> {
    l.iter().map(|l| (l.name().to_string(), l.value().to_string())).collect()
}

/// One entry of a gathered family.
#[derive(Debug, Clone)]
pub struct Entry {
    pub labels: Vec<(String, String)>,
    pub total: f64,
    pub count: Option<u64>,
    pub timestamp: Option<i64>,
    pub name: String,
    pub text: String,
}
#[derive(Debug, Clone)]
pub struct Family {
    pub parts: (Option<String>, Option<String>, String),
    pub name: String,
    pub kind: Kind,
    pub help: Option<String>,
    pub entries: Vec<Entry>,
    pub text: String,
}
pub fn kind_of(k: MetricKind) -> Kind {
    match k {
        MetricKind::Counter => Kind::Counter,
        MetricKind::Gauge => Kind::Gauge,
        MetricKind::Summary => Kind::Summary,
        MetricKind::Histogram => Kind::Histogram,
    }
}
pub fn families(f: &MetricFamilies) -> Vec<Family> {
    let v: &[MetricFamily] = f.as_ref();
    v.iter()
        .map(|f| {
            let entries = match f.metrics() {
                Metrics::Counter(v) => v
                    .iter()
                    .map(|m| Entry { labels: label_vec(m.labels()), total: m.value(), count: None, timestamp: m.timestamp().get(), name: m.metric_name().to_string(), text: m.to_string() })
                    .collect(),
                Metrics::Gauge(v) => v
                    .iter()
                    .map(|m| Entry { labels: label_vec(m.labels()), total: m.value(), count: None, timestamp: m.timestamp().get(), name: m.metric_name().to_string(), text: m.to_string() })
                    .collect(),
                Metrics::Summary(v) => v
                    .iter()
                    .map(|m| Entry { labels: label_vec(m.labels()), total: m.sum(), count: Some(m.count()), timestamp: m.timestamp().get(), name: m.metric_name().to_string(), text: m.to_string() })
                    .collect(),
                Metrics::Histogram(v) => v
                    .iter()
                    .map(|m| Entry { labels: label_vec(m.labels()), total: m.sum(), count: Some(m.count()), timestamp: m.timestamp().get(), name: m.metric_name().to_string(), text: m.to_string() })
                    .collect(),
            };
            Family {
                parts: (f.name().namespace().map(|s| s.into()), f.name().subsystem().map(|s| s.into()), f.name().name().to_string()),
                name: f.name().to_string(),
                kind: kind_of(f.kind()),
                help: f.help().map(|s| s.into()),
                entries,
                text: f.to_string(),
            }
        })
        .collect()
}
pub fn invalid<T>(r: &Result<T>) -> bool {
    match r {
        Err(e) => *e.kind() == ErrorKind::InvalidInput,
        Ok(_) => false,
    }
}
