//! Components for assembled trees.
use crate::env::BTreeMap;
use veb_tree::collection::array::*;
use veb_tree::tree::*;
use veb_tree::VebTree;

/// The standard map as a component.
pub struct BtMk;
impl<K: Ord + Clone, V> VebTreeMarker<K, V> for BtMk {
    type Tree = BTreeMap<K, V>;
}
/// The slots of the ready-made markers, with spare values in the layout: Kani 0.68 cannot read the
/// discriminant of an option whose only spare values lie beyond 64 bits.
#[derive(Clone, Copy)]
pub enum Spare {
    It,
    #[allow(dead_code)]
    Other,
}
pub struct Slots<V> {
    slots: Box<[Option<V>]>,
    _spare: Spare,
}
impl<V: VebTree, C: typenum::Unsigned> OptionArray<C> for Slots<V> {
    type V = V;
    fn create() -> Self {
        Slots { slots: <Box<[Option<V>]> as OptionArray<C>>::create(), _spare: Spare::It }
    }
    fn get(&self, i: usize) -> &Option<V> {
        <Box<[Option<V>]> as OptionArray<C>>::get(&self.slots, i)
    }
    fn get_mut(&mut self, i: usize) -> &mut Option<V> {
        <Box<[Option<V>]> as OptionArray<C>>::get_mut(&mut self.slots, i)
    }
}
pub struct SlotsMk<T>(core::marker::PhantomData<T>);
impl<K: veb_tree::key::SizedVebKey, V, T: VebTreeMarker<K, V>> ArrayMarker<K, V> for SlotsMk<T>
where
    T::Tree: VebTree,
{
    type Array = Slots<T::Tree>;
}
