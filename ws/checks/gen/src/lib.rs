//! Enumerates the bounded space of saved query definitions: every variant of every component.
use chrono::{DateTime, Utc};
use common::event_segmentation as es;
use common::funnel as f;
use common::query::*;
use datafusion_common::ScalarValue as S;

pub fn at(s: i64) -> DateTime<Utc> { DateTime::from_timestamp(s, 0).unwrap() }
pub fn units() -> Vec<TimeIntervalUnit> { use TimeIntervalUnit::*; vec![Hour, Day, Week, Month, Year] }
pub fn prop_refs() -> Vec<PropertyRef> {
    let mut v = vec![PropertyRef::Event("p".into()), PropertyRef::Event("".into()), PropertyRef::Custom(0), PropertyRef::Custom(u64::MAX)];
    for g in 0..5 { v.push(PropertyRef::Group("Name".into(), g)); }
    v
}
pub fn event_refs() -> Vec<EventRef> { vec![EventRef::RegularName("Buy".into()), EventRef::Regular(7), EventRef::Custom(9), EventRef::Regular(0), EventRef::Custom(u64::MAX)] }
pub fn ops() -> Vec<PropValueOperation> { use PropValueOperation::*; vec![Eq, Neq, Gt, Gte, Lt, Lte, True, False, Exists, Empty, Like, NotLike, Regex, NotRegex] }

pub fn scalars() -> Vec<S> {
    let mut v = vec![S::Null, S::Boolean(None), S::Boolean(Some(true)), S::Boolean(Some(false))];
    macro_rules! ints { ($($n:ident $t:ty),*) => { $( for x in [None, Some(0 as $t), Some(1), Some(7), Some(<$t>::MIN), Some(<$t>::MAX)] { v.push(S::$n(x)); } )* } }
    ints!(Int8 i8, Int16 i16, Int32 i32, Int64 i64, UInt8 u8, UInt16 u16, UInt32 u32, UInt64 u64, Date32 i32, Date64 i64,
        Time32Second i32, Time32Millisecond i32, Time64Microsecond i64, Time64Nanosecond i64, IntervalYearMonth i32);
    for x in [None, Some(0.0), Some(-0.0), Some(1.5), Some(f32::MAX), Some(f32::MIN_POSITIVE)] { v.push(S::Float32(x)); v.push(S::Float64(x.map(|x| if x.abs() > 10.0 { 1e10 } else if x.abs() < 1e-9 { 0.0 * x as f64 } else { x as f64 }))); }
    v.push(S::Float64(Some(0.1)));
    for x in [None, Some(0), Some(-1), Some(i128::MAX), Some(10i128.pow(27))] { v.push(S::Decimal128(x, 28, 16)); v.push(S::Decimal128(x, 10, 2)); v.push(S::Decimal128(x, 38, -3)); }
    for x in [None, Some(""), Some("a"), Some("йц 🐈\0\"\\")] { v.push(S::Utf8(x.map(|s| s.to_string()))); v.push(S::LargeUtf8(x.map(|s| s.to_string()))); }
    for x in [None, Some(vec![]), Some(vec![0u8, 255])] { v.push(S::Binary(x.clone())); v.push(S::LargeBinary(x.clone())); v.push(S::FixedSizeBinary(x.as_ref().map(|b: &Vec<u8>| b.len() as i32).unwrap_or(3), x)); }
    for tz in [None, Some("UTC"), Some("+02:00")] {
        for x in [None, Some(0), Some(-1), Some(i64::MAX)] {
            let tz: Option<std::sync::Arc<str>> = tz.map(|t| t.into());
            v.push(S::TimestampSecond(x, tz.clone())); v.push(S::TimestampMillisecond(x, tz.clone()));
            v.push(S::TimestampMicrosecond(x, tz.clone())); v.push(S::TimestampNanosecond(x, tz));
        }
    }
    v
}
pub fn filters() -> Vec<PropValueFilter> {
    let mut v = vec![];
    for p in prop_refs() { for o in ops() { for val in [None, Some(vec![]), Some(vec![S::Int64(Some(1))]), Some(vec![S::Utf8(Some("x".into())), S::Utf8(None), S::Boolean(Some(true))])] {
        v.push(PropValueFilter::Property { property: p.clone(), operation: o.clone(), value: val });
    } } }
    for s in scalars() { v.push(PropValueFilter::Property { property: PropertyRef::Event("p".into()), operation: PropValueOperation::Eq, value: Some(vec![s]) }); }
    v
}
fn some_filters() -> Vec<Option<Vec<PropValueFilter>>> {
    let f = filters();
    vec![None, Some(vec![]), Some(vec![f[2].clone()]), Some(vec![f[3].clone(), f[40].clone(), f[0].clone()])]
}
pub fn query_times() -> Vec<QueryTime> {
    let mut v = vec![QueryTime::Between { from: at(0), to: at(1) }, QueryTime::Between { from: at(-1_000_000), to: at(2_000_000_000) }, QueryTime::From(at(86_399))];
    for u in units() { for n in [0, 1, 30, i64::MAX] { v.push(QueryTime::Last { last: n, unit: u.clone() }); } }
    v
}
pub fn segment_times() -> Vec<SegmentTime> {
    let mut v = vec![SegmentTime::Between { from: at(5), to: at(9) }, SegmentTime::From(at(77))];
    for u in units() { for n in [1, 12] { v.push(SegmentTime::Last { n, unit: u.clone() }); v.push(SegmentTime::AfterFirstUse { within: n, unit: u.clone() }); v.push(SegmentTime::Each { n, unit: u.clone() }); } }
    v
}
pub fn query_aggs() -> Vec<QueryAggregate> { use QueryAggregate::*; vec![Min, Max, Sum, Avg, Median, DistinctCount, Percentile25th, Percentile75th, Percentile90th, Percentile99th] }
pub fn aggs() -> Vec<AggregateFunction> { use AggregateFunction::*; vec![Count, Sum, Min, Max, Avg] }
pub fn paggs() -> Vec<PartitionedAggregateFunction> { use PartitionedAggregateFunction::*; vec![Count, Sum, Avg, Min, Max] }
pub fn did_aggs() -> Vec<DidEventAggregate> {
    let mut v = vec![];
    for o in ops() { for t in segment_times() {
        v.push(DidEventAggregate::Count { operation: o.clone(), value: -3, time: t.clone() });
        v.push(DidEventAggregate::RelativeCount { event: EventRef::Regular(2), operation: o.clone(), filters: None, time: t.clone() });
        v.push(DidEventAggregate::AggregateProperty { property: PropertyRef::Event("p".into()), aggregate: QueryAggregate::Sum, operation: o.clone(), value: None, time: t.clone() });
        v.push(DidEventAggregate::HistoricalCount { operation: o.clone(), value: u64::MAX, time: t.clone() });
    } }
    for e in event_refs() { for fl in some_filters() { v.push(DidEventAggregate::RelativeCount { event: e.clone(), operation: PropValueOperation::Gt, filters: fl, time: SegmentTime::From(at(3)) }); } }
    for p in prop_refs() { for a in query_aggs() { for s in [None, Some(S::Int64(Some(3))), Some(S::Decimal128(Some(5), 28, 16)), Some(S::Utf8(None))] {
        v.push(DidEventAggregate::AggregateProperty { property: p.clone(), aggregate: a.clone(), operation: PropValueOperation::Lte, value: s, time: SegmentTime::From(at(3)) });
    } } }
    v
}
pub fn conditions() -> Vec<SegmentCondition> {
    let mut v = vec![];
    for p in prop_refs() { for o in ops() { for val in [None, Some(vec![S::Int64(Some(1)), S::Int64(None)])] {
        v.push(SegmentCondition::HasPropertyValue { property: p.clone(), operation: o.clone(), value: val.clone() });
        v.push(SegmentCondition::HadPropertyValue { property: p.clone(), operation: o.clone(), value: val, time: SegmentTime::Last { n: 3, unit: TimeIntervalUnit::Week } });
    } } }
    for t in segment_times() { v.push(SegmentCondition::HadPropertyValue { property: PropertyRef::Custom(1), operation: PropValueOperation::Eq, value: None, time: t }); }
    for a in did_aggs() { v.push(SegmentCondition::DidEvent { event: EventRef::Custom(3), filters: None, aggregate: a }); }
    for e in event_refs() { for fl in some_filters() { v.push(SegmentCondition::DidEvent { event: e.clone(), filters: fl, aggregate: DidEventAggregate::Count { operation: PropValueOperation::Eq, value: 1, time: SegmentTime::From(at(1)) } }); } }
    v
}
pub fn es_queries() -> Vec<es::Query> {
    use es::Query::*;
    let mut v = vec![CountEvents, CountUniqueGroups, DailyActiveGroups, WeeklyActiveGroups, MonthlyActiveGroups, QueryFormula { formula: "a + b".into() }];
    for a in aggs() {
        v.push(CountPerGroup { aggregate: a.clone() });
        for p in prop_refs() {
            v.push(AggregateProperty { property: p.clone(), aggregate: a.clone() });
            for q in paggs() { v.push(AggregatePropertyPerGroup { property: p.clone(), aggregate_per_group: q, aggregate: a.clone() }); }
        }
    }
    v
}
fn breakdowns() -> Vec<Option<Vec<Breakdown>>> {
    let mut v = vec![None, Some(vec![])];
    for p in prop_refs() { v.push(Some(vec![Breakdown::Property(p.clone())])); }
    v.push(Some(prop_refs().into_iter().map(Breakdown::Property).collect()));
    v
}
fn segments(all: bool) -> Vec<Option<Vec<Segment>>> {
    let mut v = vec![None, Some(vec![]), Some(vec![Segment { name: "s".into(), conditions: vec![] }, Segment { name: "".into(), conditions: vec![vec![], vec![]] }])];
    let c = conditions();
    v.push(Some(vec![Segment { name: "t".into(), conditions: vec![vec![c[0].clone(), c[5].clone()], vec![c[9].clone()]] }]));
    if all { for c in c { v.push(Some(vec![Segment { name: "x".into(), conditions: vec![vec![c]] }])); } }
    v
}
/// Event segmentation requests: a base request with each component ranging over all of its values,
/// plus pairs of the small components.
pub fn es_requests() -> Vec<es::EventSegmentationRequest> {
    use es::*;
    let base = EventSegmentationRequest { time: QueryTime::From(at(10)), group_id: 0, interval_unit: TimeIntervalUnit::Day, chart_type: ChartType::Line, analysis: Analysis::Linear, compare: None,
        events: vec![Event { event: EventRef::Regular(1), filters: None, breakdowns: None, queries: vec![NamedQuery { agg: Query::CountEvents, name: None }] }], filters: None, breakdowns: None, segments: None };
    let mut v = vec![base.clone()];
    let mut analyses = vec![Analysis::Linear, Analysis::Logarithmic, Analysis::Cumulative];
    for u in units() { for w in [0, 7] { analyses.push(Analysis::RollingAverage { window: w, unit: u.clone() }); } }
    let mut compares = vec![None];
    for u in units() { for o in [0, 3] { compares.push(Some(Compare { offset: o, unit: u.clone() })); } }
    for t in query_times() { for u in units() { for g in 0..5 { v.push(EventSegmentationRequest { time: t.clone(), interval_unit: u.clone(), group_id: g, ..base.clone() }); } } }
    for c in [ChartType::Line, ChartType::Column, ChartType::Pie] { for a in &analyses { for p in &compares { v.push(EventSegmentationRequest { chart_type: c.clone(), analysis: a.clone(), compare: p.clone(), ..base.clone() }); } } }
    for f in filters() { v.push(EventSegmentationRequest { filters: Some(vec![f.clone()]), ..base.clone() }); let mut b = base.clone(); b.events[0].filters = Some(vec![f]); v.push(b); }
    for f in some_filters() { for bd in breakdowns() { for e in event_refs() { v.push(EventSegmentationRequest { filters: f.clone(), breakdowns: bd.clone(), events: vec![base.events[0].clone(), Event { event: e, filters: f.clone(), breakdowns: bd.clone(), queries: vec![] }], ..base.clone() }); } } }
    for s in segments(true) { v.push(EventSegmentationRequest { segments: s, ..base.clone() }); }
    for q in es_queries() { for n in [None, Some("n".to_string())] { let mut b = base.clone(); b.events[0].queries = vec![NamedQuery { agg: Query::CountEvents, name: None }, NamedQuery { agg: q.clone(), name: n }]; v.push(b); } }
    v.push(EventSegmentationRequest { events: vec![], ..base });
    v
}
pub fn funnels() -> Vec<f::Funnel> {
    use f::*;
    let ev = |e: EventRef, fl: Option<Vec<PropValueFilter>>| Event { event: e, filters: fl };
    let step = |o: StepOrder| Step { events: vec![ev(EventRef::Regular(1), None)], order: o };
    let base = Funnel { time: QueryTime::From(at(10)), group_id: 0, steps: vec![step(StepOrder::Exact), step(StepOrder::Exact)], time_window: TimeWindow { n: 1, unit: TimeIntervalUnitSession::Day },
        chart_type: ChartType::Steps, count: Count::Unique, filter: None, touch: None, holding_constants: None, exclude: None, breakdowns: None, segments: None, filters: None };
    let mut v = vec![base.clone()];
    let tu = || { use TimeIntervalUnitSession::*; vec![Hour, Day, Week, Month, Year, Session] };
    let mut charts = vec![ChartType::Steps, ChartType::Frequency];
    for u in units() { charts.push(ChartType::ConversionOverTime { interval_unit: u.clone() }); charts.push(ChartType::TimeToConvert { interval_unit: u, min_interval: -1, max_interval: i64::MAX }); }
    let fils = || vec![None, Some(Filter::DropOffOnAnyStep), Some(Filter::DropOffOnStep(0)), Some(Filter::DropOffOnStep(3)), Some(Filter::TimeToConvert(0, 10)), Some(Filter::TimeToConvert(i64::MIN, i64::MAX))];
    let touches = || vec![None, Some(Touch::First), Some(Touch::Last), Some(Touch::Step { step: 0 }), Some(Touch::Step { step: 2 })];
    for t in query_times() { for u in tu() { for n in [1usize, 30] { v.push(Funnel { time: t.clone(), time_window: TimeWindow { n, unit: u.clone() }, ..base.clone() }); } } }
    for c in charts { for k in [Count::Unique, Count::NonUnique, Count::Session] { for fl in fils() { for t in touches() { v.push(Funnel { chart_type: c.clone(), count: k.clone(), filter: fl.clone(), touch: t, group_id: 2, ..base.clone() }); } } } }
    for o in [StepOrder::Exact, StepOrder::Any(vec![]), StepOrder::Any(vec![(0, 1)]), StepOrder::Any(vec![(0, 1), (2, 5)])] { for e in event_refs() { for fl in some_filters() {
        let s = Step { events: vec![ev(e.clone(), fl.clone()), ev(EventRef::Custom(2), None)], order: o.clone() };
        v.push(Funnel { steps: vec![s.clone(), step(StepOrder::Exact), s], ..base.clone() });
        for es in [None, Some(ExcludeSteps::All), Some(ExcludeSteps::Between(0, 1)), Some(ExcludeSteps::Between(2, 7))] { v.push(Funnel { exclude: Some(vec![Exclude { event: e.clone(), filters: fl.clone(), steps: es }]), ..base.clone() }); }
    } } }
    for f in filters() { v.push(Funnel { filters: Some(vec![f]), ..base.clone() }); }
    for b in breakdowns() { v.push(Funnel { breakdowns: b, holding_constants: Some(prop_refs()), exclude: Some(vec![]), ..base.clone() }); }
    for s in segments(true) { v.push(Funnel { segments: s, ..base.clone() }); }
    v.push(Funnel { steps: vec![], holding_constants: Some(vec![]), ..base });
    v
}
