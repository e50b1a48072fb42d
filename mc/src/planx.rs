//! Walking over distributed physical plans.
use datafusion::physical_plan::{ExecutionPlan, displayable};
use datafusion_distributed::*;
use std::sync::Arc;

pub struct Node {
    pub plan: Arc<dyn ExecutionPlan>,
    /// Stages entered on the way down: (stage number, number of tasks); empty on the coordinator.
    pub stages: Vec<(usize, usize)>,
    pub depth: usize,
}

impl Node {
    pub fn tasks(&self) -> usize {
        self.stages.last().map(|x| x.1).unwrap_or(1)
    }
    pub fn stage(&self) -> usize {
        self.stages.last().map(|x| x.0).unwrap_or(0)
    }
}

/// All nodes, parents first.
pub fn nodes(p: &Arc<dyn ExecutionPlan>) -> Vec<Node> {
    let mut out = vec![];
    fn go(p: &Arc<dyn ExecutionPlan>, stages: &[(usize, usize)], depth: usize, out: &mut Vec<Node>) {
        out.push(Node { plan: p.clone(), stages: stages.to_vec(), depth });
        if let Some(b) = p.as_network_boundary() {
            let s = b.input_stage();
            let mut st = stages.to_vec();
            st.push((s.num(), s.task_count()));
            if let Some(l) = s.local_plan() {
                go(l, &st, depth + 1, out);
            }
            return;
        }
        let own = union_child_tasks(p);
        for (i, c) in p.children().into_iter().enumerate() {
            let mut st = stages.to_vec();
            if let (Some(own), Some(last)) = (&own, st.last_mut()) {
                last.1 = own[i];
            }
            go(c, &st, depth + 1, out);
        }
    }
    go(p, &[], 0, &mut out);
    out
}

/// The number of tasks that each child of a distributed union runs in.
pub fn union_child_tasks(p: &Arc<dyn ExecutionPlan>) -> Option<Vec<usize>> {
    let shown = displayable(p.as_ref()).one_line().to_string();
    let map = shown.trim().strip_prefix("DistributedUnionExec:")?;
    let mut v = vec![0; p.children().len()];
    for c in map.split(['[', ']', ',', ' ']).filter(|c| c.starts_with('c')) {
        let (child, of) = match c[1..].split_once('(') {
            Some((child, share)) => (child, share.trim_end_matches(')').split_once('/')?.1.parse().ok()?),
            None => (&c[1..], 1),
        };
        v[child.parse::<usize>().ok()?] = of;
    }
    Some(v)
}
