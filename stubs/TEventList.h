#pragma once
class TEventList{};
