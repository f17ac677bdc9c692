//! A simulated network between nodes: every message sent by a node is held back until the explorer decides
//! to deliver it. Messages between two nodes keep their order, unless stated otherwise.
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    hash::Hash,
};

use flarch::nodeids::NodeID;
use flmodules::router::messages::NetworkWrapper;

use crate::engine::{fp, Ctx};

pub struct Port {
    pub id: NodeID,
    /// Returns all messages sent since the last call
    pub out: Box<dyn FnMut() -> Vec<(NodeID, NetworkWrapper)>>,
    /// Hands a message to the node
    pub deliver: Box<dyn FnMut(NodeID, NetworkWrapper)>,
}

pub struct Sim {
    pub ports: Vec<Port>,
    /// Who can send to whom
    pub links: BTreeSet<(usize, usize)>,
    pub queues: BTreeMap<(usize, usize), VecDeque<NetworkWrapper>>,
    /// A fingerprint of everything a node has seen
    pub hist: Vec<u64>,
    /// Messages to nodes which aren't connected
    pub lost: Vec<(usize, NodeID, NetworkWrapper)>,
    pub sent: usize,
}

impl Sim {
    pub fn new(ports: Vec<Port>) -> Self {
        Self {
            hist: vec![0; ports.len()],
            ports,
            links: BTreeSet::new(),
            queues: BTreeMap::new(),
            lost: vec![],
            sent: 0,
        }
    }

    pub fn idx(&self, id: &NodeID) -> Option<usize> {
        self.ports.iter().position(|p| p.id == *id)
    }

    pub fn connect(&mut self, a: usize, b: usize) {
        self.links.insert((a, b));
        self.links.insert((b, a));
    }

    pub fn disconnect(&mut self, a: usize, b: usize) {
        for l in [(a, b), (b, a)] {
            self.links.remove(&l);
            self.queues.remove(&l);
        }
    }

    /// The IDs of all nodes connected to this one
    pub fn neighbours(&self, n: usize) -> Vec<NodeID> {
        (0..self.ports.len())
            .filter(|o| self.links.contains(&(n, *o)))
            .map(|o| self.ports[o].id)
            .collect()
    }

    /// Something happened at this node.
    pub fn note(&mut self, n: usize, what: &impl Hash) {
        self.hist[n] = fp(&(self.hist[n], fp(what)));
    }

    /// Collects everything the nodes want to send.
    pub fn pump(&mut self) -> Vec<(usize, usize, NetworkWrapper)> {
        let mut new = vec![];
        for from in 0..self.ports.len() {
            let out = (self.ports[from].out)();
            for (dst, msg) in out {
                match self.idx(&dst) {
                    Some(to) if self.links.contains(&(from, to)) => {
                        self.sent += 1;
                        new.push((from, to, msg.clone()));
                        self.queues.entry((from, to)).or_default().push_back(msg);
                    }
                    _ => self.lost.push((from, dst, msg)),
                }
            }
        }
        self.queues.retain(|_, q| !q.is_empty());
        new
    }

    pub fn pending(&self) -> Vec<(usize, usize)> {
        self.queues.keys().cloned().collect()
    }

    /// Delivers the first message of a link. The caller must run the nodes afterwards.
    pub fn deliver(&mut self, link: (usize, usize)) -> NetworkWrapper {
        let q = self.queues.get_mut(&link).expect("queue");
        let m = q.pop_front().expect("message");
        if q.is_empty() {
            self.queues.remove(&link);
        }
        self.note(link.1, &(link.0, &m.module, &m.msg));
        let from = self.ports[link.0].id;
        (self.ports[link.1].deliver)(from, m.clone());
        m
    }

    /// Chooses one of the pending messages.
    pub fn choose(&self, c: &mut Ctx) -> Option<(usize, usize)> {
        let p = self.pending();
        (!p.is_empty()).then(|| *c.pick(&p))
    }

    /// A fingerprint of the state of all nodes and of the messages on their way.
    pub fn state(&self) -> u64 {
        let q: Vec<_> = self
            .queues
            .iter()
            .map(|(l, q)| (*l, q.iter().map(|m| (&m.module, &m.msg)).collect::<Vec<_>>()))
            .collect();
        fp(&(&self.hist, q, &self.links))
    }
}
