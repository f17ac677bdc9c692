use crate::engine::Prop;

mod b_broker;
mod c03_stored;
mod x01_node;
mod c_crypto;
mod d_dht;
mod f_flo;
mod g_gossip;
mod k04_router;
mod k_kademlia;
mod n03_network;
mod n06_peer;
mod n07_wsserver;
mod r_view;
mod n_net;
mod n_signal;
mod s03_config;
mod s_storage;
mod t01_timer;
mod u01_ids;
mod u02_wire;
mod w01_proxy;

pub fn all() -> Vec<Prop> {
    vec![
        b_broker::b01(),
        b_broker::b02(),
        b_broker::b03(),
        b_broker::b04(),
        s_storage::s01(),
        s_storage::s02(),
        u02_wire::prop(),
        u01_ids::prop(),
        c_crypto::c01(),
        c_crypto::c02(),
        c03_stored::prop(),
        x01_node::prop(),
        d_dht::d01(),
        d_dht::d02(),
        d_dht::d03(),
        d_dht::d04(),
        d_dht::d05(),
        f_flo::f01(),
        f_flo::f02(),
        k_kademlia::k01(),
        k_kademlia::k02(),
        k_kademlia::k03(),
        k04_router::prop(),
        g_gossip::g01(),
        g_gossip::g02(),
        g_gossip::g03(),
        n_net::n01(),
        n_net::n02(),
        n03_network::n03(),
        n_signal::n04(),
        n_signal::n05(),
        n06_peer::n06(),
        n07_wsserver::prop(),
        w01_proxy::prop(),
        s03_config::prop(),
        t01_timer::prop(),
        r_view::d06(),
        r_view::r01(),
    ]
}
